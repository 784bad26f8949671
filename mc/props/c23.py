"""C23: a set of connections between cells holds the faces it was given, and keeps them.

All sets of faces of a small grid, all masks, all lists of faces, all patterns of pinched, missing and parted cells in a
column, all short histories of operations on connection sets; against a plain list of (cell, axis, side, cell, axis,
side, feature)."""

import itertools

import numpy as np

from mc import ijk, rq
from mc.core import about, expect

ID = 'C23'
TITLE = 'Grid connection sets hold the faces they were given, through all operations'
BOUNDS = dict(quick = 'all 4095 sets of faces and 256 masks of 2x2x2; 5 layer columns x pinched x inactive; all pairs of 14 operations',
              thorough = 'all 4095 sets of faces and 256 masks of 2x2x2; 6 layer columns x pinched x inactive; all triples of 14 operations')

SHAPE = (2, 2, 2)
FACE_NUMBER = {(0, 0): 0, (0, 1): 1, (1, 0): 2, (2, 1): 3, (1, 1): 4, (2, 0): 5}  # as used by this package


def inner_faces(shape):
    """(axis, cell on the lower side) in order of axis then cell."""
    out = []
    for axis in range(3):
        top = list(shape)
        top[axis] -= 1
        out += [(axis, c) for c in itertools.product(*(range(n) for n in top))]
    return out


def pair(axis, c, flip = False):
    """((cell, axis, side), (cell, axis, side)) of a face."""
    d = list(c)
    d[axis] += 1
    p = ((tuple(c), axis, 1), (tuple(d), axis, 0))
    return p[::-1] if flip else p


def new_grid(ctx, shape = SHAPE, extra = None):
    from resqpy.grid import RegularGrid
    m = rq.new_model(ctx.path('g.epc'), h5 = True)
    crs = rq.add_crs(m)
    g = RegularGrid(m, extent_kji = shape, dxyz = (10.0, 20.0, 5.0), origin = (0.0, 0.0, 0.0), crs_uuid = crs.uuid, as_irregular_grid = True,
                    title = 'g')
    g.write_hdf5()
    g.create_xml()
    return m, crs, g


def natural(shape, c):
    return (c[0] * shape[1] + c[1]) * shape[2] + c[2]


def check(gcs, shape, conns, names, what = '', deep = False):
    """conns: [(pair, feature number)]; names: of the features."""
    with about(what):
        expect(gcs.count == len(conns), 'count', gcs.count, 'should be', len(conns))
        gcs.cache_arrays()
        cp, fp = gcs.list_of_cell_face_pairs_for_feature_index(None)
        got = [tuple((tuple(map(int, cp[n, s])), int(fp[n, s, 0]), int(fp[n, s, 1])) for s in range(2)) for n in range(len(cp))]
        expect(got == [c for c, _ in conns], 'pairs', got, 'should be', [c for c, _ in conns])
        expect(gcs.cell_index_pairs.tolist() == [[natural(shape, s[0]) for s in c] for c, _ in conns], 'cell indices')
        expect(gcs.face_index_pairs.tolist() == [[FACE_NUMBER[s[1:]] for s in c] for c, _ in conns], 'face indices')
        if names is None:
            return
        expect(gcs.number_of_features() == len(names), 'number of features', gcs.number_of_features(), 'should be', names)
        expect(gcs.list_of_feature_names(strip = False) == list(names), 'names', gcs.list_of_feature_names(strip = False), 'should be', names)
        expect(gcs.list_of_fault_names() == [x.split()[0] for x in names], 'short names')
        expect(list(map(int, gcs.feature_indices)) == [f for _, f in conns], 'feature of each', list(gcs.feature_indices), [f for _, f in conns])
        for f, name in enumerate(names):
            expect(gcs.feature_name_for_feature_index(f, strip = False) == name and gcs.fault_name_for_feature_index(f) == name.split()[0], 'name', f)
            at = [n for n, (_, x) in enumerate(conns) if x == f]
            expect(list(map(int, gcs.indices_for_feature_index(f))) == at, 'indices for feature', f)
            cp, fp = gcs.list_of_cell_face_pairs_for_feature_index(f)
            got = [tuple((tuple(map(int, cp[n, s])), int(fp[n, s, 0]), int(fp[n, s, 1])) for s in range(2)) for n in range(len(cp))]
            expect(got == [conns[n][0] for n in at], 'pairs of feature', f, got)
            raw = gcs.raw_list_of_cell_face_pairs_for_feature_index(f)
            expect(rq.same(raw[0], gcs.cell_index_pairs[at]) and rq.same(raw[1], gcs.face_index_pairs[at]), 'raw pairs', f)
        if not deep:
            return
        for f in range(len(names)):
            want = {1: set(), 2: set()}
            for c, x in conns:
                if x == f:
                    for (kji, axis, side) in c:
                        low = list(kji)
                        low[axis] += side - 1
                        if axis and low[axis] >= 0:
                            want[axis].add(tuple(low[1:]))
            got = gcs.simplified_sets_of_kelp_for_feature_index(f)
            got = tuple({tuple(map(int, x)) for x in s} for s in got)
            expect(got == (want[1], want[2]), 'columns of feature', f, got, 'should be', want)
        first = {}
        for c, x in conns:
            for s in c:
                first.setdefault(s, x)
        for cell in itertools.product(*(range(n) for n in shape)):
            for axis in range(3):
                for side in range(2):
                    got = gcs.feature_index_for_cell_face(cell, axis, side)
                    expect((None if got is None else int(got)) == first.get((cell, axis, side)), 'feature of face', cell, axis, side, got)


def stored(gcs, **kw):
    from resqpy.fault import GridConnectionSet
    gcs.write_hdf5()
    gcs.create_xml(**kw)
    return GridConnectionSet(gcs.model, uuid = gcs.uuid)


def masks(shape, faces):
    out = []
    for axis in range(3):
        e = list(shape)
        e[axis] -= 1
        a = np.zeros(e, dtype = bool)
        for x, c in faces:
            if x == axis:
                a[c] = True
        out.append(a)
    return out


def do_masks(ctx, lo, hi):
    """All sets of faces of a grid."""
    from resqpy.fault import GridConnectionSet
    faces = inner_faces(SHAPE)
    kinds = (('fault', 'F1'), ('horizon', 'H1'), ('geobody boundary', 'G1'))

    def case():
        m, crs, g = new_grid(ctx)
        for n in range(max(lo, 1), hi):
            with about(('set', n)):
                chosen = [f for b, f in enumerate(faces) if n >> b & 1]
                kind, name = kinds[n % 3]
                k, j, i = masks(SHAPE, chosen)
                flips = [()]
                if len(chosen) <= 2:
                    flips += list(itertools.product((False, True), repeat = len(chosen)))
                else:
                    flips += [tuple((n + b) % 3 == 0 for b in range(len(chosen)))]
                for fl in flips:
                    kw = {}
                    if fl:
                        sk, sj, si = masks(SHAPE, [f for f, b in zip(chosen, fl) if b])
                        kw = dict(k_sides = sk, j_sides = sj, i_sides = si)
                    gcs = GridConnectionSet(m, grid = g, k_faces = k if k.any() or n % 2 else None, j_faces = j if j.any() or n % 2 else None,
                                            i_faces = i if i.any() else (i if n % 2 or not k.any() and not j.any() else None), feature_name = name,
                                            feature_type = kind, create_organizing_objects_where_needed = True, title = 't', **kw)
                    want = [(pair(*f, flip = bool(fl) and fl[b]), 0) for b, f in enumerate(chosen)]
                    check(gcs, SHAPE, want, [name], ('sides', fl), deep = True)
                    if len(chosen) <= 2 or n % 64 == 63:
                        check(stored(gcs), SHAPE, want, [name], 'stored', deep = True)
                    ctx.state((n, fl))
                    ctx.step()
                lists = [[c for x, c in chosen if x == axis] for axis in range(3)]
                back = [x[::-1] + x[:1] for x in lists]  # in another order and one of them twice
                props = [[np.array([10.0 * axis + natural(SHAPE, c) for c in x]), np.array([[0.5 * natural(SHAPE, c), 1.0] for c in x])]
                         for axis, x in enumerate(back)]
                a = [np.array(x, dtype = int).reshape((-1, 3)) for x in back]
                gcs = GridConnectionSet.from_faces_indices(g, a[0], a[1], a[2], k_properties = props[0], j_properties = props[1], i_properties = props[2],
                                                           feature_name = name, feature_type = kind, title = 't')
                want = [(pair(*f), 0) for f in chosen]
                check(gcs, SHAPE, want, [name], 'from indices')
                for axis, x in enumerate(lists):
                    if x:
                        p = props[axis]
                        expect(rq.near(p[0], np.array([10.0 * axis + natural(SHAPE, c) for c in x])), 'properties of sorted faces', p[0], 'faces', x)
                        expect(rq.near(p[1], np.array([[0.5 * natural(SHAPE, c), 1.0] for c in x])), 'other properties of sorted faces', p[1])
                gcs = GridConnectionSet.from_faces_indices(g, a[0] if back[0] else None, a[1] if back[1] else None, a[2] if back[2] else None,
                                                           remove_duplicates = False, feature_name = name, feature_type = kind, title = 't')
                check(gcs, SHAPE, [(pair(axis, c), 0) for axis in range(3) for c in back[axis]], [name], 'from indices as they are')
        ctx.outcome('sets')
        rq.close(m)

    ctx.run(dict(lo = lo), case)


def do_kelp(ctx):
    """Column edges extended along an axis."""
    from resqpy.fault import GridConnectionSet
    shape = (2, 3, 2)

    def case():
        m, crs, g = new_grid(ctx, shape)
        for axis in range(3):
            others = [a for a in range(3) if a != axis]
            slots = []
            for n, a in enumerate(others):
                e = [shape[x] - (1 if x == a else 0) for x in others]
                slots += [(n, a, c) for c in itertools.product(range(e[0]), range(e[1]))]
            for chosen in range(1, 2**len(slots)):
                use = [s for b, s in enumerate(slots) if chosen >> b & 1]
                kelp = [[c for n, _, c in use if n == which] for which in range(2)]
                gcs = GridConnectionSet(m, grid = g)
                gcs.set_pairs_from_kelp(kelp[0], kelp[1], 'F', True, axis = 'KJI'[axis])
                want = set()
                for n, a, c in use:
                    for along in range(shape[axis]):
                        cell = [0, 0, 0]
                        cell[axis] = along
                        cell[others[0]], cell[others[1]] = c
                        want.add((a, tuple(cell)))
                check(gcs, shape, [(pair(*f), 0) for f in sorted(want)], ['F'], ('kelp', 'KJI'[axis], kelp))
                ctx.state((axis, chosen))
                ctx.step()
        ctx.outcome('kelp')
        rq.close(m)

    ctx.run({}, case)


def do_skin(ctx):
    """Skins of all sets of cells, filters by all sets of cells and ranges of layers."""
    import resqpy.fault as rqf
    faces = inner_faces(SHAPE)
    cells = list(itertools.product(*(range(n) for n in SHAPE)))

    def case():
        m, crs, g = new_grid(ctx)
        every = many(m, g, [faces[0::3], faces[1::3], faces[2::3]])
        reloaded = stored(every)
        for n in range(256):
            with about(('cells', n)):
                mask = np.array([bool(n >> b & 1) for b in range(8)]).reshape(SHAPE)
                before = mask.copy()
                want = [(pair(*f), 0) for f in faces if mask[f[1]] != mask[pair(*f)[1][0]]]
                if want:
                    kind = ('geobody boundary', 'fault', 'horizon')[n % 3]
                    skin = rqf.cell_set_skin_connection_set(g, mask, 'skin', feature_type = kind)
                    check(skin, SHAPE, want, ['skin'], 'skin')
                for both in (True, False):
                    for pare in (True, False):
                        for src in (every, reloaded):
                            got = src.filtered_by_cell_mask(mask, both_cells_required = both, pare_down = pare, return_indices = True)
                            only = src.filtered_by_cell_mask(mask, both_cells_required = both, pare_down = pare)
                            check_filtered(got, only, every_conns(faces), lambda a, b: (mask[a] and mask[b]) if both else (mask[a] or mask[b]), pare,
                                           ('filtered', both, pare))
                expect(np.array_equal(mask, before), 'mask changed')
                ctx.state(n)
                ctx.step(10)
        shape = (4, 1, 2)
        m2, crs, g = new_grid(ctx, shape)
        faces4 = inner_faces(shape)
        every4 = many(m2, g, [faces4[0::3], faces4[1::3], faces4[2::3]])
        for lo in (None, -1, 0, 1, 2, 3):
            for hi in (None, 0, 1, 2, 3, 4):
                with about(('layers', lo, hi)):
                    if lo is not None and hi is not None and lo > hi:
                        continue
                    for pare in (True, False):
                        kw = {k: v for k, v in (('min_k0', lo), ('max_k0', hi)) if v is not None}
                        got = every4.filtered_by_layer_range(pare_down = pare, return_indices = True, **kw)
                        only = every4.filtered_by_layer_range(pare_down = pare, **kw)
                        inside = lambda c: (lo is None or c[0] >= lo) and (hi is None or c[0] <= hi)
                        check_filtered(got, only, every_conns(faces4), lambda a, b: inside(a) and inside(b), pare, ('pare', pare), shape)
                    ctx.state((lo, hi))
        ctx.outcome('filters')

    ctx.run({}, case)


def many(m, g, groups, names = ('F1', 'F2', 'F3'), title = 'many'):
    """A connection set with features, in turn."""
    from resqpy.fault import GridConnectionSet
    out = GridConnectionSet(m, grid = g, title = title)
    for name, faces in zip(names, groups):
        k, j, i = masks(tuple(g.extent_kji), faces)
        out.append(GridConnectionSet(m, grid = g, k_faces = k, j_faces = j, i_faces = i, feature_name = name,
                                     create_organizing_objects_where_needed = True, title = name))
    return out


def every_conns(faces, n = 3):
    return [(pair(*f), k) for k in range(n) for f in sorted(faces[k::n])]


def check_filtered(got, only, conns, keep, pare, what, shape = SHAPE):
    at = [n for n, (c, _) in enumerate(conns) if keep(c[0][0], c[1][0])]
    gcs, indices = got
    if not at:
        expect(gcs is None and indices is None and only is None, what, 'nothing should be left')
        return
    expect(list(map(int, indices)) == at, what, 'indices', list(indices), 'should be', at)
    kept = [conns[n] for n in at]
    names = ['F1', 'F2', 'F3']
    if pare:
        used = sorted({f for _, f in kept})
        kept = [(c, used.index(f)) for c, f in kept]
        names = [names[f] for f in used]
    check(gcs, shape, kept, names, what)
    check(only, shape, kept, names, what)


# ---------------------------------------------------------------------------------------------------------------------
# histories

OPS = ['append new', 'append shared', 'append same', 'top', 'some cells', 'first', 'last', 'name', 'clean', 'inherit', 'inherit shared', 'rework', 'store',
       'reopen']


class Walk:

    def __init__(self, ctx):
        self.m, self.crs, self.g = new_grid(ctx)
        self.faces = inner_faces(SHAPE)
        self.gcs = many(self.m, self.g, [self.faces[0::4], self.faces[1::4]])
        self.want = every_conns(self.faces, 4)
        self.want = [(c, f) for c, f in self.want if f < 2]
        self.names = ['F1', 'F2']
        self.m.store_epc()
        self.path = self.m.epc_file

    def other(self, names, groups):
        g = self.gcs.grid_list[0]
        return many(self.gcs.model, g, groups, names)

    def step(self, op):
        from resqpy.fault import GridConnectionSet
        gcs = self.gcs
        if op in ('rework', 'store', 'reopen'):
            gcs.cache_arrays()
        if op.startswith('append'):
            name, faces = {'append new': ('N1', self.faces[2::4]), 'append shared': ('F2', self.faces[3::4]), 'append same': ('F1', self.faces[0::4])}[op]
            o = self.other([name], [faces])
            gcs.append(o)
            self.want = self.want + [(pair(*f), len(self.names)) for f in faces]
            self.names = self.names + [name]
            check(o, SHAPE, [(pair(*f), 0) for f in faces], [name], 'the set appended')
        elif op in ('top', 'some cells'):
            if op == 'top':
                mask = np.zeros(SHAPE, dtype = bool)
                mask[0] = True
                new = gcs.filtered_by_layer_range(min_k0 = 0, max_k0 = 0, pare_down = False)
                keep = lambda c: mask[c[0][0]] and mask[c[1][0]]
            else:
                mask = np.ones(SHAPE, dtype = bool)
                mask[1, 1, 1] = mask[0, 0, 1] = mask[1, 0, 0] = False
                new = gcs.filtered_by_cell_mask(mask, both_cells_required = False, pare_down = True)
                keep = lambda c: mask[c[0][0]] or mask[c[1][0]]
            left = [(c, f) for c, f in self.want if keep(c)]
            if not left:
                expect(new is None, 'nothing should be left')
                return
            check(gcs, SHAPE, self.want, self.names, 'the set which was filtered')
            self.gcs, self.want = new, left
            if op != 'top':
                self.clean()
        elif op in ('first', 'last', 'name'):
            f = 0 if op == 'first' else len(self.names) - 1
            kw = dict(feature_index = f)
            if op == 'name':
                f = self.names.index(self.names[-1])
                kw = dict(feature_name = self.names[-1])
            new = gcs.single_feature(**kw)
            check(gcs, SHAPE, self.want, self.names, 'the set with the feature')
            left = [(c, 0) for c, x in self.want if x == f]
            if not left:
                return
            self.gcs, self.want, self.names = new, left, [self.names[f]]
        elif op == 'clean':
            gcs.clean_feature_list()
            self.clean()
        elif op.startswith('inherit'):
            names = ['X1', 'X2'] if op == 'inherit' else ['F2', 'X2']
            groups = [self.faces[0::4][:2], self.faces[1::4][:1] + self.faces[3::4]]
            o = self.other(names, groups)
            gcs.inherit_features(o)
            titles = {}
            for n, group in zip(names, groups):
                for face in group:
                    for s in pair(*face):
                        titles[s] = n
            out = []
            for c, f in self.want:
                t = titles.get(c[0], titles.get(c[1], self.names[f]))
                out.append((c, t))
            cp, fp = gcs.list_of_cell_face_pairs_for_feature_index(None)
            got = [(tuple((tuple(map(int, cp[n, s])), int(fp[n, s, 0]), int(fp[n, s, 1])) for s in range(2)),
                    gcs.feature_name_for_feature_index(gcs.feature_indices[n], strip = False)) for n in range(gcs.count)]
            expect(got == out, 'after inheriting features', [t for _, t in got], 'should be', [t for _, t in out])
            check(o, SHAPE, [(pair(*f), n) for n, group in enumerate(groups) for f in sorted(group)], names, 'the set which was inherited from')
            self.names = gcs.list_of_feature_names(strip = False)
            expect(set(self.names) >= {t for _, t in out}, 'names', self.names)
            self.want = [(c, int(gcs.feature_indices[n])) for n, (c, _) in enumerate(out)]
        elif op == 'rework':
            for s in range(0, gcs.count, 2):
                a = int(gcs.cell_index_pairs[s, 0]), int(gcs.cell_index_pairs[s, 1])
                if self.want[s][0][0][1]:
                    gcs.face_index_pairs[s] = gcs.face_index_pairs[s][::-1]
            gcs.rework_face_pairs()
        elif op == 'store':
            import resqpy.olio.uuid as bu
            gcs.uuid = bu.new_uuid()
            self.gcs = stored(gcs)
            self.gcs.cache_arrays()
        elif op == 'reopen':
            import resqpy.olio.uuid as bu
            gcs.uuid = bu.new_uuid()
            stored(gcs)
            gcs.model.store_epc()
            gcs.model.h5_release()
            m = rq.open_model(self.path)
            self.gcs = GridConnectionSet(m, uuid = gcs.uuid)

    def clean(self):
        used = sorted({f for _, f in self.want})
        self.want = [(c, used.index(f)) for c, f in self.want]
        self.names = [self.names[f] for f in used]


def do_histories(ctx, first, depth):
    for ops in itertools.product(OPS, repeat = depth - 1):

        def case(ops = ops):
            w = Walk(ctx)
            for n, op in enumerate((first,) + ops):
                with about(('step', n, op)):
                    w.step(op)
                    if n < depth - 1 and w.gcs.cell_index_pairs is not None and (n + len(op)) % 2:
                        check(w.gcs, SHAPE, w.want, w.names)
            check(w.gcs, SHAPE, w.want, w.names, 'in the end', deep = True)
            if op != 'reopen':
                w.step('reopen')
                check(w.gcs, SHAPE, w.want, w.names, 'stored', deep = True)
            rq.close(w.gcs.model)
            rq.Stored(w.path).check_wellformed()
            ctx.outcome(ops[-1] if ops else first)

        ctx.run(dict(ops = (first,) + ops), case)
        ctx.state((first, ops))
        ctx.step(depth)


# ---------------------------------------------------------------------------------------------------------------------
# tables and text


def do_tables(ctx):
    """Faces listed in a table, with names, ranges, multipliers."""
    import pandas as pd
    import resqpy.organize as rqo
    from resqpy.fault import GridConnectionSet
    shape = (3, 3, 3)
    rows = []
    for face in ('I', 'J+', 'K', 'i', 'j+', 'I-', 'J-', 'k-', 'K+', 'i-'):
        rows.append(dict(face = face, i1 = 2, i2 = 2, j1 = 1, j2 = 3, k1 = 1, k2 = 2) if face[0] in 'Ii' else
                    dict(face = face, i1 = 1, i2 = 2, j1 = 2, j2 = 2, k1 = 2, k2 = 2))
    rows.append(dict(face = 'I', i1 = 3, i2 = 3, j1 = 1, j2 = 1, k1 = 1, k2 = 1))  # outside
    rows.append(dict(face = 'J-', i1 = 1, i2 = 1, j1 = 1, j2 = 1, k1 = 1, k2 = 1))  # outside

    def faces_of(row, base):
        face = row['face'].upper()
        axis, side = 'KJI'.index(face[0]), 0 if face.endswith('-') else 1
        out = []
        for k in range(row['k1'] - base, row['k2'] - base + 1):
            for j in range(row['j1'] - base, row['j2'] - base + 1):
                for i in range(row['i1'] - base, row['i2'] - base + 1):
                    c = [k, j, i]
                    d = list(c)
                    d[axis] += 1 if side else -1
                    if 0 <= d[axis] < 3:
                        out.append(((tuple(c), axis, side), (tuple(d), axis, 1 - side)))
        return out

    n = 0
    for a in range(len(rows)):
        for b in range(len(rows)):
            n += 1
            for names, mults, existing, tdict, base, index in ((('F1', 'F2'), (0.5, 0.25), (), None, 1, None), (('F1', 'F1'), (0.5, 0.5), (), {'f1': 2.0}, 0, None),
                                                               (('F1', 'F1'), (0.5, 0.1), (), {'F1': 2.0}, 1, [7, 3]), (('F2', 'F1'), (0.0, 0.0), ('F1',), None, 1, None),
                                                               (('F1', 'F2'), (1.0, 0.125), ('F1', 'F2'), {'f2': 4.0}, 0, [5, 5])):
                if index is not None and index[0] == index[1]:
                    index = [1, 0]

                def case():
                    m, crs, g = new_grid(ctx, shape)
                    for x in existing:
                        tbf = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = x)
                        tbf.create_xml()
                        rqo.FaultInterpretation(m, title = x, tectonic_boundary_feature = tbf, is_normal = True).create_xml(tbf.root)
                    data = [dict(rows[r], name = name, mult = mult) for r, name, mult in zip((a, b), names, mults)]
                    df = pd.DataFrame(data, index = index)
                    if base == 0:
                        for c in ('i1', 'i2', 'j1', 'j2', 'k1', 'k2'):
                            df[c] -= 1
                    gcs = GridConnectionSet(m, grid = g)
                    conns, order, mult = [], [], []
                    for name in names:
                        if name in order:
                            continue
                        f = len(order)
                        found = False
                        for d in data:
                            if d['name'] == name:
                                for p in faces_of(d, 1):
                                    conns.append((p, f))
                                    v = d['mult']
                                    if tdict is not None:
                                        v *= tdict.get(name, tdict.get(name.lower(), 1.0))
                                    mult.append(v)
                                    found = True
                        if found:
                            order.append(name)
                    if not conns:
                        return
                    gcs.set_pairs_from_faces_df(df, create_organizing_objects_where_needed = True, fault_tmult_dict = tdict, one_based_indexing = base == 1)
                    check(gcs, shape, conns, order)
                    h = stored(gcs)
                    check(h, shape, conns, order, 'stored', deep = True)
                    pc = h.extract_property_collection()
                    got = pc.single_array_ref(property_kind = 'transmissibility multiplier')
                    expect(got is not None and rq.near(np.array(got), np.array(mult), 1.0e-6), 'multipliers', got, 'should be', mult)
                    # text and back
                    fname = ctx.path('f.inc')
                    part = pc.singleton(property_kind = 'transmissibility multiplier')
                    for kw, sides in ((dict(), (0,)), (dict(use_minus = True), (1,)), (dict(include_both_sides = True), (0, 1))):
                        for with_mult in (True, False):
                            h.write_simulator(fname, trans_mult_uuid = m.uuid_for_part(part) if with_mult else None, **kw)
                            got = read_text(fname)
                            want = sorted((order[f].upper(), c[s], round(v if with_mult else 1.0, 4)) for (c, f), v in zip(conns, mult) for s in sides)
                            expect(got == want, 'text', kw, with_mult, got, 'should be', want)
                    h.write_simulator(fname, trans_mult_uuid = m.uuid_for_part(part))
                    m2, crs, g2 = new_grid(ctx, shape)
                    k = GridConnectionSet(m2, grid = g2, ascii_load_format = 'nexus', ascii_file = fname, create_organizing_objects_where_needed = True)
                    cp, fp = k.list_of_cell_face_pairs_for_feature_index(None)
                    k = stored(k)
                    k.cache_arrays()
                    p2 = k.extract_property_collection()
                    got = p2.single_array_ref(property_kind = 'transmissibility multiplier')
                    if got is None:
                        got = np.full(k.count, p2.constant_value_for_part(p2.parts()[0]))
                    got = sorted((k.feature_name_for_feature_index(k.feature_indices[x]),
                                  tuple((tuple(map(int, cp[x, s])), int(fp[x, s, 0]), int(fp[x, s, 1])) for s in range(2)), round(float(got[x]), 4))
                                 for x in range(k.count))
                    want = sorted((order[f], c, round(v, 4)) for (c, f), v in zip(conns, mult))
                    expect(got == want, 'read from text', got, 'should be', want)
                    rq.close(m)
                    rq.close(m2)
                    ctx.outcome(('table', len(order)))

                if (n + len(existing)) % 2 == 0 or a == b or n % 7 == 0:
                    ctx.run(dict(rows = (a, b), names = names, mults = mults, existing = existing), case)
                    ctx.state((a, b, names, mults, existing))
                    ctx.step()


def read_text(fname):
    """(name, (cell, axis, side), multiplier) of all faces of a simulator file."""
    out = []
    axis = side = name = None
    with open(fname) as f:
        for line in f:
            w = line.split()
            if not w:
                continue
            if w[0] == 'MULT':
                axis, side = 'ZYX'.index(w[1][1]), 0 if w[3] == 'MINUS' else 1
            elif w[0] == 'FNAME':
                name = w[1]
            elif w[0] != 'GRID':
                i1, i2, j1, j2, k1, k2 = map(int, w[:6])
                for k in range(k1, k2 + 1):
                    for j in range(j1, j2 + 1):
                        for i in range(i1, i2 + 1):
                            out.append((name, ((k - 1, j - 1, i - 1), axis, side), float(w[6])))
    return sorted(out)


# ---------------------------------------------------------------------------------------------------------------------
# pinched out layers and gaps


def do_pinched(ctx, nk, gaps):
    """All patterns of pinched and of inactive cells in a column, with a plain column next to it."""
    from resqpy.fault import pinchout_connection_set

    def scan(pinch, dead, skip, gap):
        out = []
        live = [k for k in range(nk) if k not in pinch]
        for a, b in zip(live, live[1:]):
            if b == a + 1 or skip and (a in dead or b in dead):
                continue
            if any(gap[a:b]):
                if not gap[a]:
                    return None  # a gap within the pinched layers: nothing is claimed
                continue
            out.append((a, b))
        return out

    for n in range(2**nk):

        def case(n = n):
            pinch = {k for k in range(nk) if n >> k & 1}
            s = ijk.Spec(nk, 1, 1, gaps = gaps, pinch = {(k, 0, 0) for k in pinch}, lean = 0.0)
            m = rq.new_model(ctx.path('p.epc'), h5 = True)
            crs = rq.add_crs(m)
            g = ijk.build(m, crs, s)
            ijk.store(g)
            for d in range(2**nk):
                dead = {k for k in range(nk) if d >> k & 1}
                if dead & pinch:
                    continue
                for skip in (True, False):
                    want = scan(pinch, dead, skip, list(gaps) + [False])
                    if want is None or not skip and d:
                        continue
                    g.inactive = np.array([k in dead for k in range(nk)]).reshape((nk, 1, 1)) if d else None
                    got = pinchout_connection_set(g, skip_inactive = skip)
                    with about(('pinched', sorted(pinch), 'inactive', sorted(dead), 'skip', skip)):
                        if not want:
                            expect(got is None, 'no connections expected')
                        else:
                            expect(got is not None, 'connections expected', want)
                            check(got, (nk, 1, 1), [((((a, 0, 0), 0, 1), ((b, 0, 0), 0, 0)), 0) for a, b in want], ['pinchout'])
                    ctx.step()
            ctx.state((gaps, n))
            ctx.outcome('pinched')
            rq.close(m)

        ctx.run(dict(gaps = gaps, pinched = n), case)


def do_gaps(ctx):
    from resqpy.fault import k_gap_connection_set
    cols = [(0, 0), (0, 1)]
    for gaps in itertools.product((False, True), repeat = 2):
        slots = [(k,) + c for k in range(2) if gaps[k] for c in cols]
        for n in range(2**len(slots)):
            for up in (False, True):
                for faulted in (False, True):

                    def case(n = n, up = up, faulted = faulted):
                        from mc.props.c15 import KINDS
                        shut = {s for b, s in enumerate(slots) if n >> b & 1}
                        s = ijk.Spec(3, 1, 2, gaps = gaps, shut = shut, lean = 0.0, up = up, parts = KINDS['a line'](1, 2) if faulted else None)
                        m = rq.new_model(ctx.path('p.epc'), h5 = True)
                        for inc in (True, False):
                            crs = rq.add_crs(m, z_inc_down = inc)
                            g = ijk.build(m, crs, s)
                            ijk.store(g)
                            shutting = [(k, c) for k in range(2) if gaps[k] for c in cols
                                        if abs(np.mean(s.cp[k + 1][c][0, ..., 2] - s.cp[k][c][1, ..., 2])) < 0.001]
                            for dead in ((), ((0, 0, 0),), ((1, 0, 1),), ((2, 0, 0), (1, 0, 0))):
                                for skip in (True, False):
                                    want = [(k, c) for k, c in shutting if not skip or ((k,) + c not in dead and (k + 1,) + c not in dead)]
                                    ina = np.zeros((3, 1, 2), dtype = bool)
                                    for c in dead:
                                        ina[c] = True
                                    g.inactive = ina
                                    got = k_gap_connection_set(g, skip_inactive = skip)
                                    with about(('gaps', gaps, 'shut', sorted(shut), 'inactive', dead, 'skip', skip, 'z down', inc)):
                                        if not want:
                                            expect(got is None, 'no connections expected')
                                        else:
                                            expect(got is not None, 'connections expected', want)
                                            check(got, (3, 1, 2), [((((k,) + c, 0, 1), ((k + 1,) + c, 0, 0)), 0) for k, c in want], ['k gap connection'])
                                    ctx.step()
                        ctx.outcome('gaps')
                        rq.close(m)

                    ctx.run(dict(gaps = gaps, shut = n, up = up, faulted = faulted), case)
                    ctx.state((gaps, n, up, faulted))


# ---------------------------------------------------------------------------------------------------------------------
# properties


def face_of(s):
    """(axis, index in an array over the faces of a grid) of (cell, axis, side)."""
    c = list(s[0])
    c[s[1]] += s[2]
    return s[1], tuple(c)


def blank(shape, value, dtype = float):
    out = []
    for axis in range(3):
        e = list(shape)
        e[axis] += 1
        out.append(np.full(e, value, dtype = dtype))
    return out


def throw_pairs():
    """Some pairs of cells on either side of a fault with a throw of one layer."""
    return [(((0, 0, 0), 2, 1), ((1, 0, 1), 2, 0)), (((0, 1, 0), 2, 1), ((1, 1, 1), 2, 0))]


def add_prop(m, gcs, a, title, kind, discrete = False, uom = None, **kw):
    from resqpy.property import Property
    p = Property.from_array(m, np.array(a), source_info = 'x', keyword = title, support_uuid = gcs.uuid, property_kind = kind,
                            indexable_element = 'faces', discrete = discrete, uom = uom, **kw)
    return p.uuid


def do_face_arrays(ctx, part, parts):
    import resqpy.fault as rqf
    faces = inner_faces(SHAPE)
    sets = [(0, 5, 11), (2, 6, 8), tuple(range(0, 12, 2)), (1, 3, 4, 9)]
    n = 0
    for a, b in itertools.product(range(len(sets)), repeat = 2):
        if ctx.tier == 'quick' and (a + 1) % 4 != b and (a, b) != (3, 3):
            continue
        for active in range(4):
            for baffle in range(4):
                n += 1
                if n % parts != part:
                    continue

                def case(a = a, b = b, active = active, baffle = baffle):
                    m, crs, g = new_grid(ctx)
                    us, vals = [], []
                    for x, which in enumerate((a, b)):
                        chosen = [faces[f] for f in sets[which]]
                        conns = [(pair(*f), q % 2) for q, f in enumerate(chosen)]
                        s = many(m, g, [chosen[0::2], chosen[1::2]])
                        conns = sorted(conns, key = lambda c: (c[1], c[0][0][1], c[0][0][0]))
                        s.write_hdf5()
                        s.create_xml()
                        v = np.array([0.1 * (q + 1) + 0.37 * x for q in range(len(conns))])
                        u = add_prop(m, s, v, 'tmult', 'transmissibility multiplier', uom = 'Euc')
                        d = add_prop(m, s, (10 * v).astype(int) + 3, 'marks', 'code', discrete = True)
                        on = np.ones(len(conns), dtype = bool)
                        if active >> x & 1:
                            on[1::2] = False
                            add_prop(m, s, on, 'active', 'active', discrete = True)
                        baf, bu = np.zeros(len(conns), dtype = bool), None
                        if baffle >> x & 1:
                            baf[len(conns) // 2:] = True
                            bu = add_prop(m, s, baf, 'baffle', 'baffle', discrete = True)
                        us.append(u)
                        vals.append((conns, v, on, baf))
                        h = rqf.GridConnectionSet(m, uuid = s.uuid)
                        for feature in (None, 0, 1):
                            for act in (True, False):
                                for lazy in (True, False):
                                    for use_baffle in (False, True) if bu is not None else (False,):
                                        for pu, pv, null, dt in ((u, v, np.nan, float), (d, (10 * v).astype(int) + 3, -1, int)):
                                            got = h.grid_face_arrays(pu, feature_index = feature, active_only = act, lazy = lazy, baffle_uuid = bu if use_baffle else None)
                                            want = blank(SHAPE, null, dt)
                                            for (c, f), val, o, z in zip(conns, pv, on, baf):
                                                if feature in (None, f) and (o or not act):
                                                    for side in c[:1] if lazy else c:
                                                        axis, at = face_of(side)
                                                        want[axis][at] = 0 if z and use_baffle else val
                                            for axis in range(3):
                                                expect(got[axis].shape == want[axis].shape and np.allclose(got[axis], want[axis], atol = 1.0e-6, equal_nan = True),
                                                       'faces', axis, 'feature', feature, 'active only', act, 'lazy', lazy, 'baffles', use_baffle, got[axis].tolist(), 'should be',
                                                       want[axis].tolist())
                                            ctx.step()
                    modes = dict(minimum = min, maximum = max, multiply = lambda p, q: p * q)
                    for mode in ('minimum', 'multiply', 'maximum', 'exception'):
                        for sided in (None,) if ctx.tier == 'quick' and n % 3 else (None, False) + ((True,) if mode != 'multiply' else ()):
                            for fill in (1.0, None, 7.0):
                                for act in (True, False):
                                    for app in (True, False):
                                        want = blank(SHAPE, np.nan)
                                        clash = False
                                        for conns, v, on, baf in vals:
                                            mine = {}
                                            for (c, _), val, o, z in zip(conns, v, on, baf):
                                                if act and not o:
                                                    continue
                                                both = sided if sided is not None else mode != 'multiply'
                                                for side in c if both else c[:1]:
                                                    mine[face_of(side)] = 0.0 if z and app else val
                                            for (axis, at), val in mine.items():
                                                if np.isnan(want[axis][at]):
                                                    want[axis][at] = val
                                                elif mode == 'exception':
                                                    clash = True
                                                else:
                                                    want[axis][at] = modes[mode](want[axis][at], val)
                                        kw = dict(merge_mode = mode, sided = sided, fill_value = fill, active_only = act, apply_baffles = app)
                                        if clash:
                                            expect(rq.raises(rqf.combined_tr_mult_from_gcs_mults, m, us, **kw), 'clash not noticed', kw)
                                            continue
                                        got = rqf.combined_tr_mult_from_gcs_mults(m, us, **kw)
                                        for axis in range(3):
                                            w = want[axis] if fill is None else np.where(np.isnan(want[axis]), fill, want[axis])
                                            expect(got[axis].shape == w.shape and np.allclose(got[axis], w, atol = 1.0e-6, equal_nan = True), 'combined', kw, axis,
                                                   got[axis].tolist(), 'should be', w.tolist())
                                        ctx.step()
                    rq.close(m)
                    ctx.outcome('arrays')

                ctx.run(dict(sets = (a, b), active = active, baffle = baffle), case)
                ctx.state((a, b, active, baffle))


def do_columns(ctx, lo):
    """Maps from values at K faces."""
    import resqpy.fault as rqf
    from resqpy.property import Property
    shape = (4, 2, 1)
    slots = [(0, c) for c in itertools.product(range(3), range(2), range(1))]

    def case(n):
        m, crs, g = new_grid(ctx, shape)
        if True:
            chosen = [f for b, f in enumerate(slots) if n >> b & 1]
            s = many(m, g, [chosen + [(1, (2, 0, 0))]], names = ('H',), title = f's{n}')
            s.write_hdf5()
            s.create_xml()
            v = np.array([3.0 + 1.5 * ((7 * q + n) % 5) for q in range(len(chosen))] + [99.0])
            props = [('c', False, v), ('d', True, (2 * v).astype(int)), ('p', False, np.stack((v, v + 1.0, 2.0 * v), axis = -1))]
            many_cols = len({c[1:] for _, c in chosen}) < len(chosen)
            for title, discrete, a in props:
                points = a.ndim == 2
                u = add_prop(m, s, a, title, 'thing', discrete = discrete, uom = None if discrete else 'm', points = points)
                for how in ('default', 'mean', 'min', 'max', 'any', 'exception'):
                    if discrete and how == 'mean' or points and how in ('min', 'max'):
                        continue
                    for null in ('not given', -7)[:1 if n % 4 and how != 'default' else 2]:
                        kw = dict(multiple_handling = how, title = 'new')
                        if null != 'not given':
                            kw['null_value'] = null
                        with about((n, title, how, null)):
                            if how == 'exception' and many_cols:
                                expect(rq.raises(rqf.grid_columns_property_from_gcs_property, m, u, **kw), 'exception expected')
                                continue
                            p = Property(m, uuid = rqf.grid_columns_property_from_gcs_property(m, u, **kw))
                            got = p.array_ref()
                            expect(p.title == 'new' and p.indexable_element() == 'columns' and p.is_continuous() == (not discrete) and p.is_points() == points, 'kind of property')
                            expect(str(p.collection.support_uuid) == str(g.uuid) and (discrete or points or p.uom() == 'm'), 'support and units')
                            fill = (-1 if discrete else np.nan) if null == 'not given' else null
                            want = np.full((2, 1) + a.shape[1:], fill, dtype = float)
                            alts = {}
                            for q, (_, c) in enumerate(chosen):
                                alts.setdefault(c[1:], []).append(a[q])
                            for c, vs in alts.items():
                                if how == 'any' or how == 'default' and discrete:
                                    expect(any(np.allclose(got[c], x) for x in vs), 'value', got[c], 'of', vs)
                                    want[c] = got[c]
                                else:
                                    want[c] = dict(min = np.min, max = np.max).get(how, np.mean)(np.array(vs), axis = 0)
                            expect(got.shape == want.shape and np.allclose(got, want, equal_nan = True), 'map', got.tolist(), 'should be', want.tolist())
                        ctx.step()
            ctx.state(n)
        rq.close(m)
        ctx.outcome('maps')

    for n in range(lo, 2**len(slots), 4):
        if n:
            ctx.run(dict(faces = n), case, n)


def do_edges(ctx):
    """Edges of columns by feature in a range of layers."""
    from resqpy.fault import GridConnectionSet
    shape = (3, 2, 2)
    faces = inner_faces(shape)

    def case(kind):
        m, crs, g = new_grid(ctx, shape)
        import resqpy.organize as rqo
        if kind == 'metadata':
            for n in range(3):
                tbf = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = f'F{n + 1}')
                tbf.create_xml()
                fi = rqo.FaultInterpretation(m, title = f'F{n + 1}', tectonic_boundary_feature = tbf, is_normal = True,
                                             extra_metadata = {'Transmissibility multiplier': str(0.1 * (n + 1))} if n < 2 else {})
                fi.create_xml(tbf.root)
        groups = [[f for f in faces if f[0] == 2 and f[1][0] < 2], [f for f in faces if f[0] == 1 and f[1][2] == 0], [f for f in faces if f[0] == 0]]
        s = many(m, g, groups)
        conns = [(pair(*f), n) for n, group in enumerate(groups) for f in group]
        s.write_hdf5()
        s.create_xml()
        v = 0.01 * (1.0 + np.arange(len(conns)))
        if kind == 'array':
            add_prop(m, s, v, 'tm', 'transmissibility multiplier', uom = 'Euc')
        h = GridConnectionSet(m, uuid = s.uuid)
        h.cache_arrays()
        if kind == 'metadata':
            got = h.get_property_by_feature_index_list()
            expect(np.allclose(got, (0.1, 0.2, np.nan), equal_nan = True), 'values by feature', got)
            got = h.get_property_by_feature_index_list([1, 0])
            expect(np.allclose(got, (0.2, 0.1)), 'values by feature', got)
        ones = {}
        for lo in range(3):
            for hi in range(lo, 3):
                for ref in (None,) + tuple(range(lo, hi + 1)):
                    for f in range(3):
                        with about(('layers', lo, hi, ref, 'feature', f)):
                            edges = []
                            for c, x in conns:
                                if x == f and all(lo <= q[0][0] <= hi for q in c):
                                    edges += [(q[0][1], q[0][2], q[1] - 1, q[2]) for q in c if q[1]]
                            got = h.get_column_edge_list_for_feature(f, min_k = lo, max_k = hi)
                            got = [] if got is None else [tuple(map(int, e)) for e in got]
                            expect(sorted(got) == sorted(set(edges)), 'edges', got, 'should be', sorted(set(edges)))
                            mask = np.zeros((2, 2, 2, 2), dtype = bool)
                            for e in edges:
                                mask[e] = True
                            got = h.get_column_edge_bool_array_for_feature(f, min_k = lo, max_k = hi)
                            expect(np.array_equal(got, mask), 'mask')
                            got = h.get_column_edge_float_array_for_feature(f, mask, ref_k = ref)
                            want = None
                            if kind == 'metadata' and f < 2:
                                want = np.where(mask, 0.1 * (f + 1), np.nan)
                            elif kind == 'array' and ref is not None:
                                layer = [(c, val) for (c, x), val in zip(conns, v) if x == f and all(q[0][0] == ref for q in c)]
                                if layer:
                                    want = np.full((2, 2, 2, 2), np.nan)
                                    for c, val in layer:
                                        for q in c:
                                            if q[1]:
                                                want[q[0][1], q[0][2], q[1] - 1, q[2]] = val
                            expect((got is None) == (want is None) and (want is None or np.allclose(got, want, equal_nan = True)), 'values', got, 'should be', want)
                            ones[f] = (mask, want)
                        ctx.step()
                    if ref is None:
                        if lo > 0 and kind == 'array':
                            continue
                    for order in ((0, 1, 2), (2, 1), (1, 0), (0,)):
                        with about(('layers', lo, hi, ref, 'features', order)):
                            if ref is None and kind == 'array':
                                continue
                            mask, index, value = h.get_combined_fault_mask_index_value_arrays(min_k = lo, max_k = hi, ref_k = ref,
                                                                                              feature_list = None if order == (0, 1, 2) else list(order))
                            wm, wi, wv = np.zeros((2, 2, 2, 2), dtype = bool), np.full((2, 2, 2, 2), -1), None
                            for f in order:
                                mk, val = ones[f]
                                wm |= mk
                                wi[mk] = f
                                if val is not None:
                                    wv = np.full((2, 2, 2, 2), np.nan) if wv is None else wv
                                    wv[mk] = val[mk]
                            expect(np.array_equal(mask, wm) and np.array_equal(index, wi), 'combined mask and index')
                            expect((value is None) == (wv is None) and (wv is None or np.allclose(value[wm], wv[wm], equal_nan = True)), 'combined values', value, wv)
        rq.close(m)
        ctx.outcome(('edges', kind))

    for kind in ('metadata', 'array', 'neither'):
        ctx.run(dict(kind = kind), case, kind)
        ctx.state(kind)


def do_surface(ctx):
    """Triangles of the faces."""
    from resqpy.fault import GridConnectionSet
    faces = inner_faces(SHAPE)

    def case(kind):
        if kind == 'spec':
            s = ijk.Spec(2, 2, 2)
            m = rq.new_model(ctx.path('s.epc'), h5 = True)
            g = ijk.build(m, rq.add_crs(m), s)
            ijk.store(g)
            corners = s.cp
        else:
            from resqpy.grid import RegularGrid
            m = rq.new_model(ctx.path('s.epc'), h5 = True)
            crs = rq.add_crs(m)
            g = RegularGrid(m, extent_kji = SHAPE, dxyz = (10.0, 20.0, 5.0), crs_uuid = crs.uuid, title = 'g', as_irregular_grid = kind == 'irregular')
            g.write_hdf5()
            g.create_xml()
            corners = np.empty(SHAPE + (2, 2, 2, 3))
            for x in itertools.product(range(2), repeat = 6):
                k, j, i, a, b, c = x
                corners[x] = ((i + c) * 10.0, (j + b) * 20.0, (k + a) * 5.0)
        for n in range(1, 4096, 1 if ctx.tier == 'thorough' else 7):
            chosen = [f for b, f in enumerate(faces) if n >> b & 1]
            for groups in ((chosen,), (chosen[::2], chosen[1::2])):
                if not all(groups):
                    continue
                gcs = many(m, g, groups)
                for f, group in enumerate(groups):
                    surf = gcs.surface(feature_index = f if len(groups) > 1 or n % 2 else None)
                    t, p = surf.triangles_and_points()
                    expect(len(t) == 2 * len(group), 'triangles', len(t), 'for faces', group)
                    expect(surf.title == f'F{f + 1}', 'title', surf.title)
                    got = sorted(tuple(sorted(tuple(np.round(p[v], 4)) for v in tri)) for tri in t)
                    left = {}
                    for tri in got:
                        left[tri] = left.get(tri, 0) + 1
                    for axis, c in group:
                        q = corners[c]
                        q = q[1] if axis == 0 else q[:, 1] if axis == 1 else q[:, :, 1]
                        q = [tuple(np.round(q[a, b], 4)) for a, b in ((0, 0), (0, 1), (1, 1), (1, 0))]
                        ways = [[tuple(sorted((q[0], q[1], q[2]))), tuple(sorted((q[0], q[2], q[3])))], [tuple(sorted((q[1], q[2], q[3]))), tuple(sorted((q[3], q[0], q[1])))]]
                        ok = [w for w in ways if all(left.get(x, 0) for x in w)]
                        expect(len(ok) > 0, 'face', axis, c, 'has no pair of triangles')
                        for x in ok[0]:
                            left[x] -= 1
                ctx.step()
            ctx.state((kind, n))
        rq.close(m)
        ctx.outcome(kind)

    for kind in ('spec', 'regular', 'irregular'):
        ctx.run(dict(kind = kind), case, kind)


def do_merge(ctx):
    """Connection sets of one model merged in another, with their properties."""
    from resqpy.fault import GridConnectionSet
    from resqpy.property import Property
    faces = inner_faces(SHAPE)
    makes = [(('F1',), [faces[0:3]]), (('F1', 'F2'), [faces[3:5], faces[5:6]]), (('F3',), [faces[6:12]]), (('F2',), [faces[1:2]])]
    for order in [o for k in (2, 3) for o in itertools.permutations(range(4), k)]:
        for where in ('same model', 'other model'):

            def case(order = order, where = where):
                m, crs, g = new_grid(ctx)
                sets, props, want, names = [], [[], [], []], [], []
                vals = [[], [], []]
                for x in order:
                    nm, groups = makes[x]
                    s = many(m, g, groups, nm, title = f's{x}')
                    s.write_hdf5()
                    s.create_xml()
                    sets.append(s.uuid)
                    want += [(pair(*f), len(names) + n) for n, group in enumerate(groups) for f in group]
                    names += nm
                    n = s.count
                    arrays = (0.5 + np.arange(n) + 10.0 * x, np.arange(n) + 100 * x, np.arange(3.0 * n).reshape((n, 3)) + 7.0 * x)
                    for q, (title, disc) in enumerate((('c', False), ('d', True), ('p', False))):
                        props[q].append(add_prop(m, s, arrays[q], title, 'thing', discrete = disc, uom = None if disc else 'm', points = q == 2))
                        vals[q].append(arrays[q])
                path = m.epc_file
                if where == 'other model':
                    to = rq.new_model(ctx.path('to.epc'), h5 = True)
                    path = to.epc_file
                else:
                    to = m
                out = GridConnectionSet.from_gcs_uuid_list(to, m, sets, 'merged', props)
                check(out, SHAPE, want, names)
                to.store_epc()
                u = out.uuid
                rq.close(to)
                rq.Stored(path).check_wellformed()
                to = rq.open_model(path)
                h = GridConnectionSet(to, uuid = u)
                expect(h.title == 'merged', 'title', h.title)
                check(h, SHAPE, want, names, 'stored', deep = True)
                pc = h.extract_property_collection()
                expect(pc.number_of_parts() == 3, 'properties', pc.number_of_parts())
                for q, title in enumerate('cdp'):
                    p = Property(to, uuid = to.uuid_for_part(pc.singleton(citation_title = title)))
                    expect(np.allclose(p.array_ref(), np.concatenate(vals[q])), 'property', title, p.array_ref().tolist())
                    expect(p.is_points() == (q == 2) and p.is_continuous() == (q != 1) and p.property_kind() == 'thing', 'kind of property', title)
                rq.close(m)
                ctx.outcome(where)

            ctx.run(dict(order = order, where = where), case)
            ctx.state((order, where))
            ctx.step(len(order))


def do_sampled(ctx):
    """Properties sampled for the part of a set which is left, all subsets of four connections."""
    from resqpy.fault import GridConnectionSet
    faces = inner_faces(SHAPE)[::3]

    def case():
        m, crs, g = new_grid(ctx)
        s = many(m, g, [faces[:2], faces[2:]])
        s.write_hdf5()
        s.create_xml()
        v, d = np.array([1.5, 2.5, 3.5, 4.5]), np.array([4, 3, 2, 1])
        add_prop(m, s, v, 'v', 'length', uom = 'm')
        add_prop(m, s, d, 'd', 'code', discrete = True)
        h = GridConnectionSet(m, uuid = s.uuid, find_properties = True)
        cells = list(itertools.product(*(range(n) for n in SHAPE)))
        for n in range(1, 256):
            mask = np.array([bool(n >> b & 1) for b in range(8)]).reshape(SHAPE)
            h.cache_arrays()
            f, at = h.filtered_by_cell_mask(mask, both_cells_required = False, return_indices = True)
            if f is None:
                continue
            f.inherit_properties_for_selected_indices(h, at)
            k = stored(f)
            pc = k.extract_property_collection()
            expect(pc.number_of_parts() == 2, 'properties', pc.number_of_parts())
            expect(np.allclose(pc.single_array_ref(citation_title = 'v'), v[at]) and np.array_equal(pc.single_array_ref(citation_title = 'd'), d[at]), 'values for', at)
            ctx.state(n)
            ctx.step()
        rq.close(m)
        ctx.outcome('sampled')

    ctx.run({}, case)


def do_rework(ctx, lo):
    """All ordered pairs of cells, with all pairs of faces: faces of neighbouring columns are put right, others are kept."""
    cells = list(np.ndindex(2, 3, 2))

    def case():
        m, crs, g = new_grid(ctx, shape = (2, 3, 2))
        faces = inner_faces((2, 3, 2))
        pairs = [(a, b) for a in cells for b in cells if a != b][lo::4]
        given = [p for p in np.ndindex(6, 6) if lo or p[0] != p[1]][lo::7]
        gcs = many(m, g, [faces[:1]], names = ('F1',))
        gcs.cache_arrays()
        n = len(pairs) * len(given)
        gcs.count = n
        gcs.cell_index_pairs = np.array([[natural((2, 3, 2), a), natural((2, 3, 2), b)] for a, b in pairs for _ in given])
        gcs.face_index_pairs = np.array([p for _ in pairs for p in given])
        gcs.grid_index_pairs = np.zeros((n, 2), dtype = int)
        gcs.feature_indices = np.zeros(n, dtype = int)
        gcs.rework_face_pairs()
        at = 0
        for a, b in pairs:
            dj, di = b[1] - a[1], b[2] - a[2]
            for p in given:
                if (abs(dj), abs(di)) in ((0, 1), (1, 0)):
                    axis = 1 if dj else 2
                    side = 1 if dj + di > 0 else 0
                    p = FACE_NUMBER[axis, side], FACE_NUMBER[axis, 1 - side]
                got = tuple(map(int, gcs.face_index_pairs[at]))
                expect(got == p, 'faces of', a, b, 'are', got, 'should be', p)
                at += 1
            ctx.step(len(given))
        ctx.state((lo, n))

    ctx.run({}, case)


def jobs(tier):
    quick = tier == 'quick'
    for lo in range(0, 4096, 256):
        yield f'sets {lo}', do_masks, dict(lo = lo, hi = lo + 256)
    yield 'kelp', do_kelp, {}
    yield 'skin', do_skin, {}
    for lo in range(4):
        yield f'rework {lo}', do_rework, dict(lo = lo)
    for op in OPS:
        yield f'histories {op}', do_histories, dict(first = op, depth = 2 if quick else 3)
    yield 'tables', do_tables, {}
    nk = 5 if quick else 6
    for gaps in ((False,) * (nk - 1), (True,) + (False,) * (nk - 2), (False, True) + (False,) * (nk - 3), (False,) * (nk - 2) + (True,)):
        yield f'pinched {gaps}', do_pinched, dict(nk = nk, gaps = gaps)
    yield 'gaps', do_gaps, {}
    for part in range(6):
        yield f'face arrays {part}', do_face_arrays, dict(part = part, parts = 6)
    for lo in range(4):
        yield f'columns {lo}', do_columns, dict(lo = lo)
    yield 'edges', do_edges, {}
    yield 'surface', do_surface, {}
    yield 'merge', do_merge, {}
    yield 'sampled', do_sampled, {}
