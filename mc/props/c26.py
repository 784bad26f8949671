"""C26: polylines answer as the geometry which they are.

All polygons and open lines through points of a small lattice are made, and every question is compared with exact
integer geometry: length, centre, inclusion of points, area, convexity, sense, normals, hull, intersections, nearest
segments, mappings of the inside.  Sets of lines are made from all short sequences of lines, stored, read back, and taken
through the text formats; splines are compared with a plain evaluation."""

import itertools
import math
import os

import numpy as np

from mc import ijk, rq
from mc.core import about, expect

ID = 'C26'
TITLE = 'Polylines answer as the geometry they are, and survive storage and text files'
BOUNDS = dict(quick = 'all polygons of 3 to 5 points of a 3x3 lattice (3948, both senses); open lines of 2 to 4 points; all sets of up to 3 of 6 lines',
              thorough = 'all polygons of 3 to 6 points of a 3x3 lattice (14028); open lines of 2 to 5 points; all sets of up to 4 of 6 lines')

SX, SY, X0, Y0 = 12.0, 8.0, 100.0, 40.0
LATTICE = [(x, y) for y in range(3) for x in range(3)]


def height(x, y):
    return float((3 * x + 7 * y) % 5) * 4.0 - 3.0


def coords(pts):
    return np.array([(X0 + SX * x, Y0 + SY * y, height(x, y)) for x, y in pts])


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on_segment(p, a, b):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def touch(a, b, c, d):
    """Whether closed segments ab, cd have a point in common."""
    if any((on_segment(c, a, b), on_segment(d, a, b), on_segment(a, c, d), on_segment(b, c, d))):
        return True
    return cross(a, b, c) * cross(a, b, d) < 0 and cross(c, d, a) * cross(c, d, b) < 0


def simple(pts):
    n = len(pts)
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        for j in range(i + 1, n):
            c, d = pts[j], pts[(j + 1) % n]
            if j == i + 1:
                if on_segment(d, a, b) or on_segment(a, c, d):
                    return False
            elif (j + 1) % n == i:
                if on_segment(c, a, b) or on_segment(b, c, d):
                    return False
            elif touch(a, b, c, d):
                return False
    return True


def twice_area(pts):
    """Positive if anticlockwise where y is anticlockwise of x."""
    return sum(pts[i - 1][0] * pts[i][1] - pts[i][0] * pts[i - 1][1] for i in range(len(pts)))


def is_convex(pts):
    """For a simple polygon."""
    t = [cross(pts[i - 2], pts[i - 1], pts[i]) for i in range(len(pts))]
    return all(v >= 0 for v in t) or all(v <= 0 for v in t)


def winding(p, pts):
    w = 0
    for i in range(len(pts)):
        a, b = pts[i - 1], pts[i]
        if a[1] <= p[1] < b[1] and cross(a, b, p) > 0:
            w += 1
        elif b[1] <= p[1] < a[1] and cross(a, b, p) < 0:
            w -= 1
    return w


def crossings(p, pts):
    n = 0
    for i in range(len(pts)):
        a, b = pts[i - 1], pts[i]
        if (a[1] <= p[1] < b[1] and cross(a, b, p) > 0) or (b[1] <= p[1] < a[1] and cross(a, b, p) < 0):
            n += 1
    return n


def on_boundary(p, pts, closed = True):
    return any(on_segment(p, pts[i - 1], pts[i]) for i in range(0 if closed else 1, len(pts)))


def hull(pts):
    """Corners of the convex hull, as a set."""
    out = set()
    for p in pts:
        others = [q for q in pts if q != p]
        # p is a corner if all others lie strictly within a half plane through p
        for q in others:
            for s in (1, -1):
                if all(s * cross(p, q, r) > 0 or (cross(p, q, r) == 0 and
                       (q[0] - p[0]) * (r[0] - p[0]) + (q[1] - p[1]) * (r[1] - p[1]) > 0) for r in others):
                    out.add(p)
    return out


def points_about():
    """Points at twelfths of the lattice, including ones in line with lattice points, in lattice units."""
    v = [-6, -1, 0, 1, 4, 6, 11, 12, 13, 18, 24, 25]
    return [(a / 12.0, b / 12.0) for a in v for b in v]


def twelfths(pts):
    return [(12 * x, 12 * y) for x, y in pts]


def real(p):
    return (X0 + SX * p[0], Y0 + SY * p[1])


def line(m, pts, closed, title = 'line', crs = None, xyz = None):
    import resqpy.lines as rql
    return rql.Polyline(m, is_closed = closed, set_coord = coords(pts) if xyz is None else xyz,
                        set_crs = m.crs_uuid if crs is None else crs, title = title)


def segments(c, closed):
    n = len(c)
    return [(i, (i + 1) % n) for i in range(n if closed else n - 1)]


def lengths(c, closed, d = 3):
    return [float(np.sqrt(np.sum((c[b, :d] - c[a, :d])**2))) for a, b in segments(c, closed)]


def along(c, closed, f, d = 3):
    """The point at a fraction of the length."""
    ls = lengths(c, closed, d)
    t = f * sum(ls)
    for (a, b), s in zip(segments(c, closed), ls):
        if t <= s + 1.0e-9:
            return c[a] + (c[b] - c[a]) * (t / s)
        t -= s
    return c[b]


def check_measures(pl, c, closed):
    n = len(c)
    for xy in (False, True):
        d = 2 if xy else 3
        ls = lengths(c, closed, d)
        for k, s in enumerate(ls):
            expect(abs(pl.segment_length(k, in_xy = xy) - s) < 1.0e-9, 'segment length', k, xy, pl.segment_length(k, in_xy = xy), s)
        expect(abs(pl.full_length(in_xy = xy) - sum(ls)) < 1.0e-8, 'full length', xy, pl.full_length(in_xy = xy), sum(ls))
        for f in (0.0, 0.125, 0.25, 0.4, 0.5, 0.75, 0.9, 1.0):
            p = pl.interpolated_point(f, in_xy = xy)
            w = along(c, closed, f, d)
            expect(rq.near(p, w, 1.0e-6), 'interpolated point', f, xy, p, 'should be', w)
        for k in (2, 3, 6, 10):
            p = pl.equidistant_points(k, in_xy = xy)
            w = [along(c, closed, i / (k if closed else k - 1), d) for i in range(k)]
            expect(rq.near(p, w, 1.0e-6), 'equidistant points', k, xy, p, 'should be', w)
        mids = np.array([0.5 * (c[a] + c[b]) for a, b in segments(c, closed)])
        w = np.sum(mids * np.array(ls)[:, None], axis = 0) / sum(ls)
        got = pl.balanced_centre(in_xy = xy)
        expect(rq.near(got[:2], w[:2], 1.0e-6), 'centre', xy, got, 'should be', w)
        if not xy:
            expect(rq.near(got, w, 1.0e-6), 'centre', got, 'should be', w)
    for k, (a, b) in enumerate(segments(c, closed)):
        expect(rq.near(pl.segment_midpoint(k), 0.5 * (c[a] + c[b])), 'midpoint', k)
    if not closed:
        expect(rq.raises(pl.segment_length, n - 1), 'open line has a closing segment')
    expect(rq.same(pl.coordinates, c), 'coordinates changed by a query')


def check_polygon(m, right, pts, full):
    """pts in cyclic order."""
    import resqpy.lines as rql
    c = coords(pts)
    pl = line(m, pts, True)
    check_measures(pl, c, True)
    t12 = twelfths(pts)
    probes = [p for p in points_about() if not on_boundary((round(12 * p[0]), round(12 * p[1])), t12)]
    p12 = [(round(12 * p[0]), round(12 * p[1])) for p in probes]
    odd = [bool(crossings(p, t12) % 2) for p in p12]
    wound = [winding(p, t12) != 0 for p in p12]
    xy = np.array([real(p) for p in probes])
    got = pl.points_are_inside_xy(xy)
    expect(list(got) == odd, 'points inside', [(tuple(a), bool(b), d) for a, b, d in zip(xy, got, odd) if bool(b) != d])
    got = pl.points_are_inside_xy(np.concatenate((xy, np.zeros((len(xy), 1))), axis = 1).reshape((-1, 1, 3)))
    expect(got.shape == (len(xy), 1) and list(got[:, 0]) == odd, 'points inside, as an array of two dimensions')
    for n in range(0, len(probes), 1 if full else 5):
        expect(bool(pl.point_is_inside_xy(xy[n])) == odd[n], 'point inside', xy[n], odd[n])
        expect(bool(pl.point_is_inside_xy(xy[n], mode = 'winding')) == wound[n], 'point inside by winding', xy[n], wound[n])
    s = simple(pts)
    flat = all(cross(pts[i - 2], pts[i - 1], pts[i]) == 0 for i in range(len(pts)))
    if s:
        conv = is_convex(pts)
        expect(bool(pl.is_convex()) == conv, 'convex', pl.is_convex(), conv)
        clockwise = (twice_area(pts) < 0) != right
        for trust in (True, False):
            expect(bool(pl.is_clockwise(trust_metadata = trust)) == clockwise, 'clockwise', trust, pl.is_clockwise(trust_metadata = trust), clockwise)
            expect(bool(pl.is_convex(trust_metadata = trust)) == conv, 'convex', trust)
        fresh = line(m, pts, True)
        expect(bool(fresh.is_clockwise()) == clockwise, 'clockwise, asked first', fresh.is_clockwise(), clockwise)
        a = abs(twice_area(pts)) * 0.5 * SX * SY
        if conv:
            expect(abs(pl.area() - a) < 1.0e-6, 'area', pl.area(), a)
        else:
            step = sum(np.ptp(c[:, :2], axis = 0)) / 100.0
            expect(abs(pl.area() - a) < 2.0 * step * sum(lengths(c, True, 2)), 'area', pl.area(), 'should be about', a)
        for k, (i, j) in enumerate(segments(c, True)):
            nv = fresh.segment_normal(k)
            v = c[j, :2] - c[i, :2]
            expect(abs(np.dot(nv[:2], v)) < 1.0e-9 and nv[2] == 0.0 and abs(np.linalg.norm(nv) - 1.0) < 1.0e-9, 'normal', k, nv)
            # outward, numerically: away from the side on which the inside lies
            left = nv[0] * -v[1] + nv[1] * v[0] > 0.0
            expect(left == (twice_area(pts) < 0), 'normal of segment', k, nv, 'points inwards')
        h = rql.Polyline.convex_hull_from_closed_polyline(pl, 'hull')
        want = hull(pts)
        hp = [tuple(p) for p in h.coordinates]
        expect(len(set(hp)) == len(hp) and set(hp) <= set(tuple(p) for p in c), 'hull has', hp)
        back = [(round((p[0] - X0) / SX), round((p[1] - Y0) / SY)) for p in hp]
        expect(want <= set(back), 'hull', back, 'lacks corners of', want)
        expect(simple(back) and is_convex(back) and all(on_boundary(p, back) or winding(p, back) != 0 for p in pts), 'hull', back)
        expect(h.isclosed and h.title == 'hull', 'hull open')
        hw = rql.Polyline.convex_hull_from_closed_polyline(pl, 'hull', mode = 'winding')
        expect(rq.same(hw.coordinates, h.coordinates), 'hull by winding', hw.coordinates, h.coordinates)
        if conv and full:
            check_mappings(m, pts, [p for p, o in zip(probes, odd) if o])
    elif not flat:
        expect(not pl.is_convex(), 'a polygon which crosses itself is convex')
    expect(rq.same(pl.coordinates, c), 'coordinates changed by a query')
    return (s, flat)


def check_mappings(m, pts, inside):
    for mode in ('perimeter', 'circle', 'square'):
        pl = line(m, pts, True)
        for p in inside:
            x, y = real(p)
            nx, ny = pl.normalised_xy(x, y, mode = mode)
            expect(0.0 <= nx <= 1.0 and 0.0 <= ny <= 1.0, mode, 'normalised', (x, y), 'is', (nx, ny))
            bx, by = pl.denormalised_xy(nx, ny, mode = mode)
            expect(abs(bx - x) < 1.0e-6 and abs(by - y) < 1.0e-6, mode, 'point', (x, y), 'normalised', (nx, ny), 'returns as', (bx, by))
        for a in (0.0, 0.25, 0.5, 0.7, 1.0):
            for b in (0.0, 0.25, 0.5, 0.6, 0.9):
                x, y = pl.denormalised_xy(a, b, mode = mode)
                # within or on the polygon
                c = pl.coordinates
                s = 1.0 if twice_area(pts) > 0 else -1.0
                ok = all(s * cross(c[i - 1], c[i], (x, y)) > -1.0e-6 for i in range(len(c)))
                expect(ok, mode, 'normalised', (a, b), 'is at', (x, y), 'outside')


def polygons_case(ctx, k, share, of, right, full):
    m = rq.new_model(ctx.path('p.epc'))
    rq.add_crs(m, axis_order = 'northing easting' if right else 'easting northing')
    n = 0
    seen = 0
    for pts in itertools.permutations(LATTICE, k):
        if pts[0] != min(pts):
            continue
        n += 1
        if n % of != share:
            continue
        if all(cross(pts[i - 2], pts[i - 1], pts[i]) == 0 for i in range(k)):
            continue  # all in one line
        # start elsewhere in the ring, for variety
        r = n % k
        with about('polygon ' + str(pts[r:] + pts[:r])):
            s = check_polygon(m, right, pts[r:] + pts[:r], full or n % 4 == 0)
        ctx.step(1)
        ctx.outcome((k, right) + s)
        seen += 1
        ctx.state((k, right, pts))
    rq.close(m)


def polygons(ctx, k, share, of):
    of2 = max(1, {3: 1, 4: 2, 5: 4, 6: 8}[k])
    for right in (False, True):
        if right and k > 4 and ctx.tier == 'quick' and share % 2:
            continue
        for s in range(of2):
            ctx.run((k, share, s, right), polygons_case, ctx, k, share + of * s, of * of2, right, ctx.tier == 'thorough' or k < 5)


def closest(p, a, b):
    """Nearest point of segment ab in plan."""
    v = b[:2] - a[:2]
    f = min(1.0, max(0.0, float(np.dot(p - a[:2], v) / np.dot(v, v))))
    return a[:2] + f * v, f


def check_lines(m, pts, closed, full):
    import resqpy.lines as rql
    c = coords(pts)
    pl = line(m, pts, closed)
    if not closed:
        check_measures(pl, c, closed)
        expect(not pl.is_convex(), 'an open line is convex')
    for p in points_about()[::(1 if full else 7)]:
        q = np.array(real(p))
        d = [float(np.linalg.norm(closest(q, c[a], c[b])[0] - q)) for a, b in segments(c, closed)]
        seg, dist = pl.closest_segment_and_distance_to_point_xy(q)
        expect(abs(dist - min(d)) < 1.0e-6, 'distance of', q, 'is', dist, 'should be', min(d))
        expect(abs(d[seg] - min(d)) < 1.0e-6, 'closest segment of', q, 'is', seg, 'should be', int(np.argmin(d)))
        for k, (a, b) in enumerate(segments(c, closed)):
            w, f = closest(q, c[a], c[b])
            s = pl.point_snapped_to_segment_xy(k, q)
            expect(rq.near(s, w, 1.0e-6), 'point', q, 'snapped to segment', k, s, 'should be', w)
    for k, (a, b) in enumerate(segments(c, closed)):
        for f in (0.0, 0.25, 0.5, 1.0):
            w = c[a] + f * (c[b] - c[a])
            got = pl.segment_xyz_from_xy(k, w[0], w[1])
            expect(rq.near(got, w, 1.0e-6), 'segment', k, 'at', w[:2], 'is', got, 'should be', w)
    for s0 in range(len(c) - 1):
        for s1 in range(s0, len(c) - 1):
            for ends in ((None, None), ((1.0, 2.0, 3.0), None), (None, (4.0, 5.0, 6.0)), ((1.0, 2.0, 3.0), (4.0, 5.0, 6.0))):
                t = rql.Polyline.from_trimmed_polyline(pl, s0, s1, start_xyz = ends[0], end_xyz = ends[1])
                w = c[s0:s1 + 2].copy()
                if ends[0] is not None:
                    w[0] = ends[0]
                if ends[1] is not None:
                    w[-1] = ends[1]
                expect(rq.near(t.coordinates, w) and not t.isclosed and t.title == pl.title, 'trimmed', s0, s1, ends, t.coordinates)
    ls = lengths(c, closed)
    o = sum(0.5 * (c[a] + c[b]) * s for (a, b), s in zip(segments(c, closed), ls)) / sum(ls)
    for f in (0.5, 1.0, 3.0):
        t = rql.Polyline.from_scaled_polyline(pl, f)
        expect(rq.near(t.coordinates, o + f * (c - o), 1.0e-6) and bool(t.isclosed) == closed, 'scaled', f, t.coordinates)
    # other lines
    others = [((0, 0), (2, 2)), ((-1, 1), (3, 1)), ((1, 0.5), (1, 3)), ((0, 2.5), (2.5, 0)), ((0.25, 0.25), (0.25, 5)),
              ((0.5, -1), (0.75, 0.5)), ((4, 4), (5, 4))]
    for u, v in others:
        (x1, y1), (x2, y2) = real(u), real(v)
        for half in (False, True):
            want = []
            for k, (a, b) in enumerate(segments(c, closed)):
                h = meet((x1, y1), (x2, y2), c[a], c[b], half)
                if h is not None:
                    want.append((k, h))
            seg, x, y = pl.first_line_intersection(x1, y1, x2, y2, half_segment = half)
            if not want:
                expect(seg is None and x is None and y is None, 'line', u, v, half, 'meets segment', seg, (x, y))
            else:
                expect(seg == want[0][0] and rq.near((x, y), want[0][1], 1.0e-6), 'line', u, v, half, 'meets', seg, (x, y), 'should be', want[0])
    for other in ([(0, 0.5), (2, 0.5), (2, 1.5), (0, 1.5)], [(0.5, -1), (0.5, 3)], [(1.5, 1.75), (1.75, 0.25), (-1, 0.3)]):
        for oc in (False, True):
            if oc and len(other) < 3:
                continue
            xyz = coords([(0, 0)] * len(other))
            xyz[:, :2] = [real(p) for p in other]
            ol = line(m, other, oc, xyz = xyz)
            want = set()
            for a, b in segments(c, closed):
                for d, e in segments(xyz, oc):
                    h = meet(c[a], c[b], xyz[d], xyz[e], False)
                    if h is not None:
                        want.add((round(h[0], 5), round(h[1], 5)))
            for g in (pl.xy_crossings(ol), ol.xy_crossings(pl)):
                got = set((round(float(x), 5), round(float(y), 5)) for x, y in g)
                expect(got == want, 'crossings with', other, sorted(got), 'should be', sorted(want))
    expect(rq.same(pl.coordinates, c), 'coordinates changed by a query')


def meet(p1, p2, p3, p4, half):
    """Meeting point of lines which are not parallel, in plan; first is bounded only at its start if half."""
    d = (p2[0] - p1[0]) * (p4[1] - p3[1]) - (p2[1] - p1[1]) * (p4[0] - p3[0])
    if abs(d) < 1.0e-9:
        return None
    t = ((p3[0] - p1[0]) * (p4[1] - p3[1]) - (p3[1] - p1[1]) * (p4[0] - p3[0])) / d
    u = ((p3[0] - p1[0]) * (p2[1] - p1[1]) - (p3[1] - p1[1]) * (p2[0] - p1[0])) / d
    if t < 0.0 or (t > 1.0 and not half) or u < 0.0 or u > 1.0:
        return None
    return (p1[0] + t * (p2[0] - p1[0]), p1[1] + t * (p2[1] - p1[1]))


def lines_case(ctx, k, closed, share, of, full):
    m = rq.new_model(ctx.path('p.epc'), crs = True, h5 = True)
    n = 0
    for pts in itertools.permutations(LATTICE, k):
        if closed and pts[0] != min(pts):
            continue
        n += 1
        if n % of != share:
            continue
        with about(('closed ' if closed else '') + 'line ' + str(pts)):
            check_lines(m, pts, closed, full)
        ctx.step(1)
        ctx.state((k, closed, pts))
    ctx.outcome((k, closed))
    rq.close(m)


def lines(ctx, k, closed, share, of):
    for s in range(4):
        ctx.run((k, closed, share, s), lines_case, ctx, k, closed, share + of * s, of * 4, ctx.tier == 'thorough' or k < 4)


# splines

def tangents(c, closed, weight):
    n = len(c)
    out = np.zeros((n, 3))
    e = {'linear': 1, 'square': 2, 'cube': 3}[weight]
    for i in range(n):
        if not closed and i in (0, n - 1):
            v = c[1] - c[0] if i == 0 else c[-1] - c[-2]
        else:
            a, b = c[i] - c[i - 1], c[(i + 1) % n] - c[i]
            v = a / np.linalg.norm(a)**e + b / np.linalg.norm(b)**e
        s = np.linalg.norm(v)
        out[i] = v / s if s > 1.0e-12 else 0.0
    return out


def spline_case(ctx, k, closed, share, of):
    import resqpy.lines as rql
    m = rq.new_model(ctx.path('s.epc'), crs = True)
    n = 0
    for pts in itertools.permutations(LATTICE, k):
        n += 1
        if n % of != share:
            continue
        c = coords(pts)
        segs = segments(c, closed)
        for weight in ('linear', 'square', 'cube'):
            with about('spline ' + str((pts, closed, weight))):
                t = tangents(c, closed, weight)
                got = rql.tangents(c, weight = weight, closed = closed)
                expect(rq.near(got, t, 1.0e-6), 'tangents', got, 'should be', t)
                for args in (dict(min_subdivisions = 1, max_degrees_per_knot = None),
                             dict(min_subdivisions = 3, max_degrees_per_knot = None),
                             dict(min_subdivisions = 2, max_segment_length = 5.0, max_degrees_per_knot = None),
                             dict(max_degrees_per_knot = 20.0)):
                    s = line(m, pts, closed).splined(tangent_weight = weight, title = 'smooth', **args)
                    expect(bool(s.isclosed) == closed and s.title == 'smooth', 'splined line', s.isclosed, s.title)
                    sp = s.coordinates
                    # original points in order, and between each pair points on the cubic
                    at = 0
                    for x, (a, b) in enumerate(segs):
                        expect(at < len(sp) and rq.near(sp[at], c[a]), args, 'point', a, 'not met at', at)
                        nxt = at + 1
                        while nxt < len(sp) and not rq.near(sp[nxt], c[b]):
                            nxt += 1
                        if not closed or x < len(segs) - 1:
                            expect(nxt < len(sp), args, 'point', b, 'is not part of the spline')
                        cnt = nxt - at
                        ln = np.linalg.norm(c[b] - c[a])
                        least = args.get('min_subdivisions', 1)
                        if 'max_segment_length' in args:
                            least = max(least, math.ceil(ln / args['max_segment_length']))
                        if args['max_degrees_per_knot'] is None:
                            expect(cnt == least, args, 'segment', x, 'has', cnt, 'parts, should have', least)
                        else:
                            expect(cnt >= least, args, 'segment', x, 'has', cnt, 'parts')
                        for i in range(1, cnt):
                            f = i / cnt
                            w = ((1.0 + 2.0 * f) * (1.0 - f)**2 * c[a] + f * f * (3.0 - 2.0 * f) * c[b] +
                                 ln * (f * (1.0 - f)**2 * t[a] - f * f * (1.0 - f) * t[b]))
                            expect(rq.near(sp[at + i], w, 1.0e-6), args, 'segment', x, 'part', i, sp[at + i], 'should be', w)
                        at = nxt
                    expect(at == len(sp) - (0 if closed else 1), args, 'points after the last', len(sp), at)
                pl = line(m, pts, closed)
                expect(rq.near(pl.tangent_vectors(), tangents(c, closed, 'linear'), 1.0e-6), 'tangents of the line', pl.tangent_vectors())
        ctx.step(12)
        ctx.state((pts, closed))
    ctx.outcome((k, closed))
    rq.close(m)


def splines(ctx, k, closed, share, of):
    for s in range(4):
        ctx.run((k, closed, share, s), spline_case, ctx, k, closed, share + of * s, of * 4)


# storage

def kinds():
    return {
        'open': ([(0, 0), (2, 1)], False), 'bent': ([(0, 0), (1, 1), (2, 0), (2, 2)], False),
        'triangle': ([(0, 0), (2, 0), (1, 2)], True), 'square': ([(1, 1), (2, 1), (2, 2), (1, 2)], True),
        'ring': ([(0, 0), (1, 2), (2, 0), (0, 0)], False), 'again': ([(0, 0), (2, 1)], False)
    }


def store_case(ctx, name, interp, order, meta, dims):
    import resqpy.lines as rql
    import resqpy.organize as rqo
    path = ctx.path('p.epc')
    m = rq.new_model(path, crs = True, h5 = True)
    pts, closed = kinds()[name]
    c = coords(pts)
    if dims == 2:
        c[:, 2] = 0.0
    src = c[:, :2] if dims == 2 else (c.reshape((2, -1, 3)) if dims == 4 else c)
    pl = rql.Polyline(m, is_closed = closed, set_coord = src, set_crs = m.crs_uuid, title = 'a line', originator = 'me',
                      extra_metadata = dict(meta) if meta else None)
    if interp is not None:
        pl.create_interpretation_and_feature(kind = interp, name = 'thing')
    if order == 'xml first':
        pl.create_xml()
        pl.write_hdf5()
    else:
        pl.write_hdf5()
        pl.create_xml()
    ctx.step(2)
    if meta == {'is_convex': 'x'}:
        pass
    m.store_epc()
    rq.close(m)
    rq.Stored(path).check_wellformed()
    m = rq.open_model(path)
    back = rql.Polyline(m, uuid = pl.uuid)
    expect(rq.same(back.coordinates, c), 'coordinates read back', back.coordinates, c)
    expect(bool(back.isclosed) == closed and back.title == 'a line' and back.originator == 'me', 'read back', back.isclosed, back.title)
    expect(str(back.crs_uuid) == str(pl.crs_uuid), 'crs read back', back.crs_uuid)
    expect({k: str(v) for k, v in (back.extra_metadata or {}).items()} == {k: str(v) for k, v in (meta or {}).items()}, 'metadata', back.extra_metadata)
    if interp is None:
        expect(back.rep_int_root is None, 'interpretation read back')
    else:
        u = back.rep_int_uuid
        expect(u is not None and str(u) == pl.rep_int_root.attrib['uuid'], 'interpretation read back', u)
        t = m.type_of_uuid(u, strip_obj = True)
        want = {'horizon': 'HorizonInterpretation', 'fault': 'FaultInterpretation', 'fracture': 'FaultInterpretation',
                'geobody boundary': 'GeobodyBoundaryInterpretation'}[interp]
        expect(t == want, 'interpretation is', t)
        expect(str(pl.rep_int_root.attrib['uuid']) in [str(x) for x in m.uuids(related_uuid = back.uuid)], 'not related to the interpretation')
    expect(str(back.crs_uuid) in [str(x) for x in m.uuids(related_uuid = back.uuid)], 'not related to the crs')
    # shifting and flattening
    for copy in (rql.shift_polyline(m, back.root, xyz_shift = (1.0, -2.0, 3.0)), rql.shift_polyline(m, back.root, xyz_shift = (1.0, -2.0, 3.0), title = 'x')):
        expect(rq.near(copy.coordinates, c + np.array((1.0, -2.0, 3.0))) and bool(copy.isclosed) == closed and str(copy.uuid) != str(pl.uuid), 'shifted', copy.coordinates)
    for ax in 'xyz':
        copy = rql.flatten_polyline(m, back.root, axis = ax, value = 5.0, title = 'flat')
        w = c.copy()
        w[:, 'xyz'.index(ax)] = 5.0
        expect(rq.near(copy.coordinates, w) and bool(copy.isclosed) == closed and copy.title == 'flat', 'flattened', ax, copy.coordinates)
    expect(rq.same(rql.Polyline(m, uuid = pl.uuid).coordinates, c), 'the line itself changed')
    ctx.state((name, interp, order, str(meta), dims))
    ctx.outcome((name, interp))
    rq.close(m)


def store(ctx, name):
    for interp in (None, 'horizon', 'fault', 'fracture', 'geobody boundary'):
        for order in ('hdf5 first', 'xml first'):
            ctx.run((name, interp, order), store_case, ctx, name, interp, order, {'source': 'survey', 'n': '3'} if order == 'xml first' else None, 3)
    ctx.run((name, 'flat'), store_case, ctx, name, None, 'hdf5 first', None, 2)
    if len(kinds()[name][0]) % 2 == 0:
        ctx.run((name, 'patches'), store_case, ctx, name, None, 'hdf5 first', None, 4)


def make(m, names, shift = 0.0):
    out = []
    for n, k in enumerate(names):
        pts, closed = kinds()[k]
        c = coords(pts)
        if k != 'again':
            c[:, :2] += 50.0 * n + shift
        out.append(line(m, pts, closed, title = 'same' if n < 2 else 'other', xyz = c))
    return out


def check_set(ps, want, what, inside = True, strict = True):
    """want: list of (coordinates, closed)."""
    expect(len(ps.polys) == len(want), what, 'lines', len(ps.polys), 'should be', len(want))
    for n, (c, closed) in enumerate(want):
        p = ps.polys[n]
        expect(rq.near(p.coordinates, c, 1.0e-6), what, 'line', n, p.coordinates, 'should be', c)
        expect(bool(p.isclosed) == bool(closed), what, 'line', n, 'closed', p.isclosed, 'should be', closed)
        expect(str(p.crs_uuid) == str(ps.crs_uuid), what, 'line', n, 'crs', p.crs_uuid)
    if strict:
        expect(list(ps.count_perpol) == [len(c) for c, _ in want], what, 'counts', list(ps.count_perpol))
        expect(rq.near(ps.coordinates, np.concatenate([c for c, _ in want]), 1.0e-6), what, 'coordinates', ps.coordinates)
        expect([bool(b) for b in ps.closed_array] == [bool(b) for _, b in want], what, 'closed', list(ps.closed_array))
    if inside:
        for p in points_about()[5::17]:
            q = real(p)
            w = None
            for n, (c, closed) in enumerate(want):
                if closed:
                    pts = [((a[0] - X0) / SX * 12, (a[1] - Y0) / SY * 12) for a in c]
                    q12 = ((q[0] - X0) / SX * 12, (q[1] - Y0) / SY * 12)
                    if any(abs(cross(pts[i - 1], pts[i], q12)) < 1.0e-6 for i in range(len(pts))):
                        w = -1
                        break
                    if crossings(q12, pts) % 2:
                        w = n
                        break
            if w != -1:
                for mode in ('crossing', 'winding'):
                    got = ps.poly_index_containing_point_in_xy(q, mode = mode)
                    expect(got == w, what, 'point', q, mode, 'is in line', got, 'should be', w)


def ring_dropped(want):
    """A line which is marked as closed loses a repeated end point; an open one keeps it."""
    return want


def sets_case(ctx, names, order, save, interp, fresh):
    import resqpy.lines as rql
    path = ctx.path('p.epc')
    m = rq.new_model(path, crs = True, h5 = True)
    pls = make(m, names)
    want = [(p.coordinates.copy(), p.isclosed) for p in pls]
    ps = rql.PolylineSet(m, polylines = pls, title = 'a set')
    check_set(ps, want, 'made')
    if interp:
        ps.create_interpretation_and_feature(kind = interp, name = 'thing')
        ps.set_interpretation_root(ps.rep_int_root)
    if order == 'xml first':
        ps.create_xml(save_polylines = save)
        ps.write_hdf5(save_polylines = save)
    else:
        ps.write_hdf5(save_polylines = save)
        ps.create_xml(save_polylines = save)
    check_set(ps, want, 'written')
    ctx.step(2)
    m.store_epc()
    rq.close(m)
    rq.Stored(path).check_wellformed()
    m = rq.open_model(path)
    back = rql.PolylineSet(m, uuid = ps.uuid)
    check_set(back, want, 'read back')
    expect(back.title == 'a set' and str(back.crs_uuid) == str(ps.crs_uuid), 'read back', back.title, back.crs_uuid)
    expect((back.rep_int_root is None) == (interp is None), 'interpretation', back.rep_int_root)
    for polys in (back.convert_to_polylines(), rql.PolylineSet(m, polylines = back.polys).polys):
        expect(len(polys) == len(want), 'converted to', len(polys), 'lines')
        for p, (c, closed) in zip(polys, want):
            expect(rq.near(p.coordinates, c) and bool(p.isclosed) == bool(closed), 'converted line', p.coordinates, p.isclosed, 'should be', c, closed)
    if save:
        expect(len(m.uuids(obj_type = 'PolylineRepresentation')) == len(want), 'lines stored', m.uuids(obj_type = 'PolylineRepresentation'))
        for p, (c, closed) in zip(pls, want):
            q = rql.Polyline(m, uuid = p.uuid)
            expect(rq.near(q.coordinates, c) and bool(q.isclosed) == bool(closed), 'line stored with the set', q.coordinates)
            expect(str(q.uuid) in [str(u) for u in m.uuids(related_uuid = ps.uuid)], 'line is not related to the set')
    # the set written again under another name
    if fresh:
        again = rql.PolylineSet(m, polylines = back.polys, title = 'second')
        again.write_hdf5()
        again.create_xml()
        check_set(rql.PolylineSet(m, uuid = again.uuid), want, 'second')
    # text
    f = os.path.join(os.path.dirname(path), 'lines.txt')
    back.convert_to_irap(f)
    t = rql.PolylineSet(m, irap_file = f, crs_uuid = m.crs_uuid)
    tw = [(c, closed) for c, closed in want]
    tw = [(c[:-1], True) if len(c) > 2 and np.all(c[0] == c[-1]) else (c, closed) for c, closed in tw]
    check_set(t, tw, 'read from irap', strict = False)
    t.write_hdf5()
    t.create_xml()
    check_set(rql.PolylineSet(m, uuid = t.uuid), tw, 'read from irap and stored')
    back.convert_to_charisma(f)
    t = rql.PolylineSet(m, charisma_file = f, crs_uuid = m.crs_uuid)
    tw = [(c, False) for c, _ in want]
    check_set(t, tw, 'read from charisma', strict = False)
    t.write_hdf5()
    t.create_xml()
    check_set(rql.PolylineSet(m, uuid = t.uuid), tw, 'read from charisma and stored')
    expect(all(rq.same(p.coordinates, c) for p, (c, _) in zip(pls, want)), 'lines of the set changed')
    ctx.state((names, order, save, interp))
    ctx.outcome(tuple(bool(b) for _, b in want))
    rq.close(m)


def sets(ctx, n, first):
    ks = list(kinds())
    for i, rest in enumerate(itertools.product(ks, repeat = n - 1)):
        names = (first,) + rest
        for order in ('hdf5 first', 'xml first'):
            save = (i + (order == 'xml first')) % 2 == 0
            interp = (None, 'horizon', 'fault', 'geobody boundary')[i % 4] if n < 3 else None
            ctx.run((names, order), sets_case, ctx, names, order, save, interp, i % 3 == 0)


def crs_case(ctx, names, which):
    """Lines of differing crs's, combined in that of the first."""
    import resqpy.crs as rqc
    import resqpy.lines as rql
    m = rq.new_model(ctx.path('p.epc'), crs = True, h5 = True)
    c2 = rq.add_crs(m, x_offset = 100.0, y_offset = -50.0, z_offset = 7.0, z_inc_down = False)
    c1 = rqc.Crs(m, uuid = m.crs_uuid)
    crs = [c1, c2]
    pls = make(m, names)
    for p, w in zip(pls, which):
        p.crs_uuid = crs[w].uuid
    orig = [p.coordinates.copy() for p in pls]

    def convert(a, f, t):
        a = a.copy()
        if f == t:
            return a
        if t == 1:
            a[:, 2] = -a[:, 2]
            return a - np.array((100.0, -50.0, 7.0))
        a = a + np.array((100.0, -50.0, 7.0))
        a[:, 2] = -a[:, 2]
        return a

    ps = rql.PolylineSet(m, polylines = pls[:1], title = 'set')
    ps.combine_polylines(pls)
    want = np.concatenate([convert(c, w, which[0]) for c, w in zip(orig, which)])
    expect(rq.near(ps.coordinates, want, 1.0e-6), 'combined', ps.coordinates, 'should be', want)
    expect(str(ps.crs_uuid) == str(crs[which[0]].uuid), 'crs of the set', ps.crs_uuid)
    for p, c in zip(pls, orig):
        expect(rq.same(p.coordinates, c), 'a line was changed')
    if len(set(which)) > 1:
        expect(rq.raises(rql.PolylineSet, m, polylines = pls, title = 'set'), 'a set of lines with differing crs was made')
    ctx.state((names, which))
    ctx.outcome(which)
    rq.close(m)


def crss(ctx, n):
    for names in itertools.product(('open', 'triangle', 'again'), repeat = n):
        for which in itertools.product((0, 1), repeat = n):
            ctx.run((names, which), crs_case, ctx, names, which)


# text files with points in all arrangements

def irap_case(ctx, lines_, blank):
    import resqpy.lines as rql
    path = ctx.path('p.epc')
    m = rq.new_model(path, crs = True, h5 = True)
    f = os.path.join(os.path.dirname(path), 'some_lines.txt')
    want = []
    with open(f, 'w') as o:
        for n, (k, closed) in enumerate(lines_):
            c = [(10.0 * n + i * i, 20.0 - n * i, 100.0 + i + 0.25) for i in range(k)]
            if closed and k > 1:
                c.append(c[0])
            for p in c:
                o.write('%.3f  %.3f\t%.3f\n' % p)
                if blank:
                    o.write('\n')
            o.write('999.0 999.0 999.0\n')
            if blank:
                o.write('999.000 999.000 999.000\n')
            if k > 1:
                want.append((np.array(c[:-1] if closed and k > 1 else c), closed))
    if not want:
        return
    for crs in (None, m.crs_uuid):
        t = rql.PolylineSet(m, irap_file = f, crs_uuid = crs)
        expect(t.title == 'some_lines', 'title', t.title)
        check_set(t, want, 'read', inside = False, strict = False)
        t.write_hdf5()
        t.create_xml()
        check_set(rql.PolylineSet(m, uuid = t.uuid), want, 'stored', inside = False)
    ctx.state((lines_, blank))
    ctx.outcome((len(want), tuple(c for _, c in want)))
    rq.close(m)


def irap(ctx, n, blank):
    for lines_ in itertools.product(((1, False), (2, False), (3, False), (3, True), (4, True)), repeat = n):
        ctx.run((lines_, blank), irap_case, ctx, lines_, blank)


def charisma_case(ctx, sticks, labels):
    import resqpy.lines as rql
    path = ctx.path('p.epc')
    m = rq.new_model(path, crs = True, h5 = True)
    f = os.path.join(os.path.dirname(path), 'sticks.txt')
    want = []
    with open(f, 'w') as o:
        for n, k in enumerate(sticks):
            c = [(10.0 * n + i * i, 20.0 - n * i, 100.0 + i + 0.25) for i in range(k)]
            for p in c:
                o.write('INLINE- 0 0 %.3f %.3f %.3f fault_a %d\n' % (p + (labels[n],)))
            if k > 1:
                want.append((np.array(c), False))
    if want:
        for crs in (None, m.crs_uuid):
            t = rql.PolylineSet(m, charisma_file = f, crs_uuid = crs)
            expect(t.title == 'sticks', 'title', t.title)
            check_set(t, want, 'read', inside = False, strict = False)
            t.write_hdf5()
            t.create_xml()
            check_set(rql.PolylineSet(m, uuid = t.uuid), want, 'stored', inside = False)
    ctx.state((sticks, labels))
    ctx.outcome((len(want), sticks))
    rq.close(m)


def charisma(ctx, total):
    def comps(t):
        if t == 0:
            yield ()
        for a in range(1, t + 1):
            for r in comps(t - a):
                yield (a,) + r
    for sticks in comps(total):
        for labels in (tuple(range(1, len(sticks) + 1)), tuple(n % 2 + 7 for n in range(len(sticks)))):
            ctx.run((sticks, labels), charisma_case, ctx, sticks, labels)


# small helpers on lines

def olio_case(ctx, share, of):
    import resqpy.olio.point_inclusion as pip
    import resqpy.olio.simple_lines as sl
    n = 0
    # pixels within a convex polygon
    for k in (3, 4):
        for pts in itertools.permutations(LATTICE, k):
            if pts[0] != min(pts):
                continue
            n += 1
            if n % of != share or not simple(pts) or not is_convex(pts):
                continue
            p24 = [(24 * x, 24 * y) for x, y in pts]
            for ox, oy, dx, dy, nc, nr in ((-7, -5, 11, 7, 6, 9), (3, 1, 4, 5, 14, 11), (5, 11, 30, 24, 3, 3), (-60, -60, 13, 13, 4, 4)):
                want = np.zeros((nr, nc), dtype = bool)
                skip = np.zeros((nr, nc), dtype = bool)
                for r in range(nr):
                    for c in range(nc):
                        p = (ox + dx * c, oy + dy * r)
                        skip[r, c] = on_boundary(p, p24)
                        want[r, c] = winding(p, p24) != 0
                got = pip.scan((float(ox), float(oy)), nc, nr, float(dx), float(dy), np.array(p24, dtype = float))
                expect(got.shape == want.shape and np.all((got == want) | skip), 'pixels', pts, (ox, oy, dx, dy), got.astype(int).tolist(), 'should be', want.astype(int).tolist())
            ctx.step(4)
            ctx.state(pts)
    # repeated points
    for k in (2, 3, 4, 5):
        for pat in itertools.product((0, 1, 2), repeat = k):
            n += 1
            if n % of != share:
                continue
            c = np.array([(10.0 * v, 5.0 * v * v, 1.0 * v) for v in pat])
            want = [c[0]]
            for p in c[1:]:
                if not np.all(p == want[-1]):
                    want.append(p)
            got = sl.duplicate_vertices_removed(c.copy())
            if k > 2:
                expect(rq.same(got, np.array(want)), 'repeats of', pat, 'removed', got)
            got = sl.polygon_line(c.copy())
            expect(rq.same(got, c[:-1] if pat[0] == pat[-1] else c), 'end point of', pat, got)
            ctx.step(2)
    ctx.outcome(share)


def olio(ctx, share, of):
    ctx.run((share, of), olio_case, ctx, share, of)


def drape_case(ctx, spec):
    import resqpy.olio.simple_lines as sl
    m = rq.new_model(ctx.path('g.epc'), crs = True)
    g = ijk.build(m, ctx_crs(m), spec, 'grid')
    ls = [np.array([(0.0, 0.0, 5.0), (130.0, 40.0, 7.0), (260.0, 95.0, 9.0)]), np.array([(33.0, 170.0, 0.0), (90.0, 260.0, 1.0)])]
    for k, kp in ((0, 0), (0, 1), (spec.nk - 1, 1)):
        h = g.horizon_points(ref_k0 = k + kp)
        pil = sl.nearest_pillars(ls, g, ref_k = k, ref_kp = kp)
        expect(len(pil) == len(ls), 'pillars', pil)
        for l, pp in zip(ls, pil):
            for p, ji in zip(l, pp):
                d = np.sum((h[..., :2] - p[:2])**2, axis = -1)
                expect(abs(d[tuple(ji)] - np.min(d)) < 1.0e-6, 'pillar nearest to', p, 'is', ji)
        for snap in (False, True):
            for off in (-1.0, 2.5):
                out = sl.drape_lines(ls, pil, g, ref_k = k, ref_kp = kp, offset = off, snap = snap)
                for l, pp, o in zip(ls, pil, out):
                    for p, ji, q in zip(l, pp, o):
                        w = h[tuple(ji)].copy()
                        if not snap:
                            w[:2] = p[:2]
                        w[2] += off
                        expect(rq.near(q, w, 1.0e-6), 'draped', p, snap, q, 'should be', w)
        ctx.step(4)
    ctx.state(repr(spec.shape))
    ctx.outcome(spec.shape)
    rq.close(m)


def ctx_crs(m):
    import resqpy.crs as rqc
    return rqc.Crs(m, uuid = m.crs_uuid)


def drape(ctx):
    for nk, nj, ni in ((1, 2, 3), (2, 3, 2), (3, 1, 1)):
        for lean in (0.0, 15.0):
            ctx.run((nk, nj, ni, lean), drape_case, ctx, ijk.Spec(nk, nj, ni, lean = lean))


def jobs(tier):
    out = []
    for k in (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6):
        of = {3: 1, 4: 4, 5: 16, 6: 48}[k]
        out += [(f'polygons of {k} points {s}', polygons, dict(k = k, share = s, of = of)) for s in range(of)]
    for k in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        of = {2: 1, 3: 2, 4: 8, 5: 24}[k]
        out += [(f'open lines of {k} points {s}', lines, dict(k = k, closed = False, share = s, of = of)) for s in range(of)]
        if k > 2:
            out += [(f'closed lines of {k} points {s}', lines, dict(k = k, closed = True, share = s, of = of)) for s in range(of)]
    for k in (2, 3) if tier == 'quick' else (2, 3, 4):
        for closed in (False, True):
            if closed and k < 3:
                continue
            of = {2: 1, 3: 4, 4: 16}[k]
            out += [(f'splines of {k} points {closed} {s}', splines, dict(k = k, closed = closed, share = s, of = of)) for s in range(of)]
    out += [(f'stored {k}', store, dict(name = k)) for k in kinds()]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        out += [(f'sets of {n} from {k}', sets, dict(n = n, first = k)) for k in kinds()]
    out += [(f'mixed crs {n}', crss, dict(n = n)) for n in (1, 2, 3)]
    for blank in (False, True):
        out += [(f'irap {n} {blank}', irap, dict(n = n, blank = blank)) for n in ((1, 2) if tier == 'quick' else (1, 2, 3))]
    out += [(f'charisma {n}', charisma, dict(total = n)) for n in ((1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7))]
    out += [(f'helpers {s}', olio, dict(share = s, of = 4)) for s in range(4)]
    out.append(('draped', drape, {}))
    return out
