"""Small IJK grids made from an explicit description, with corner points worked out by plain arithmetic (no resqpy).

A Spec holds: the extent; for every pillar, which of the columns around it share a coordinate line (a set partition);
after which layers there is a gap; which (layer, column) pairs are pinched out.  Spec.cp is the reference corner point
array, Spec.nodes the reference position of every node of every column."""

import itertools

import numpy as np

LAYER = (2.0, 3.0, 1.5, 2.5)
GAP = 0.75


def columns_around(nj, ni, j, i):
    return [(cj, ci) for cj in (j - 1, j) for ci in (i - 1, i) if 0 <= cj < nj and 0 <= ci < ni]


def set_partitions(items):
    """All set partitions, first block holds the first item."""
    items = list(items)
    if not items:
        return [[]]
    out = []
    first, rest = items[0], items[1:]
    for r in range(len(rest) + 1):
        for with_first in itertools.combinations(rest, r):
            left = [x for x in rest if x not in with_first]
            for p in set_partitions(left):
                out.append([[first] + list(with_first)] + p)
    return out


def pillar_choices(nj, ni, which = None):
    """{pillar: list of partitions} for the pillars with more than one column (restricted to which)."""
    res = {}
    for j in range(nj + 1):
        for i in range(ni + 1):
            cols = columns_around(nj, ni, j, i)
            if len(cols) > 1 and (which is None or (j, i) in which):
                res[(j, i)] = set_partitions(cols)
    return res


def all_parts(nj, ni, which = None):
    ch = pillar_choices(nj, ni, which)
    keys = sorted(ch)
    for combo in itertools.product(*[ch[k] for k in keys]):
        yield dict(zip(keys, combo))


class Spec:

    def __init__(self, nk, nj, ni, parts = None, gaps = None, pinch = (), lean = 0.01, throw = 0.6, holes = (), dots = (), scale = 1.0,
                 up = False, flip_i = False, warp = 1.0, shut = ()):
        self.nk, self.nj, self.ni = nk, nj, ni
        self.shape = (nk, nj, ni)
        self.parts = {} if parts is None else parts
        self.gaps = [False] * (nk - 1) if gaps is None else [bool(b) for b in gaps]
        self.pinch = set(pinch)
        self.shut = set(shut)  # (layer, column) with no gap below although there is one elsewhere
        self.lean, self.throw, self.scale, self.up, self.flip_i, self.warp = lean, throw, scale, up, flip_i, warp
        self.holes = set(holes)  # (pillar, line, raw node) without a position
        self.dots = set(dots)  # (column, raw node) where the four corners are at one place
        self.intervals = []  # of a coordinate line: (layer, is a gap)
        self.raw = []
        for k in range(nk):
            self.raw.append(len(self.intervals))
            self.intervals.append((k, False))
            if k < nk - 1 and self.gaps[k]:
                self.intervals.append((k, True))
        self.nn = len(self.intervals) + 1  # raw node layers
        self.groups = {}
        for j in range(nj + 1):
            for i in range(ni + 1):
                cols = columns_around(nj, ni, j, i)
                self.groups[(j, i)] = [list(g) for g in self.parts.get((j, i), [cols])]
        self.nodes = np.empty((self.nn, nj, ni, 2, 2, 3))
        for n in range(self.nn):
            for j in range(nj):
                for i in range(ni):
                    for jp in range(2):
                        for ip in range(2):
                            self.nodes[n, j, i, jp, ip] = self.node(n, j + jp, i + ip, self.group_of(j + jp, i + ip, (j, i)))
        self.cp = np.empty((nk, nj, ni, 2, 2, 2, 3))
        for k in range(nk):
            for kp in range(2):
                self.cp[k, :, :, kp] = self.nodes[self.raw[k] + kp]

    def group_of(self, j, i, col):
        return next(g for g, cols in enumerate(self.groups[(j, i)]) if col in cols)

    def node(self, n, j, i, g):
        """Position of raw node n on coordinate line g of pillar (j, i)."""
        if ((j, i), g, n) in self.holes:
            return np.full(3, np.nan)
        z = 0.0
        cols = self.groups[(j, i)][g]
        for c in cols:
            if (c, n) in self.dots:
                return np.array((1000.0 + 10.0 * c[1], 2000.0 + 10.0 * c[0], 1000.0 + 2.0 * n))
        for k, gap in self.intervals[:n]:
            if gap:
                if any((k,) + tuple(c) in self.shut for c in cols):
                    continue
                z += GAP + 0.05 * self.warp * ((j + 2 * i) % 3)
            elif not any((k,) + c in self.pinch for c in cols):
                z += LAYER[k % 4] + 0.11 * self.warp * ((2 * j + 3 * i + k) % 4)
        z += 0.37 * j + 0.21 * i * self.warp + self.throw * g * (1.0 + 0.25 * ((j + i) % 2))
        x = 10.0 * i * (1.0 + 0.03 * j * self.warp) + self.lean * (1 + (j * 2 + i) % 3) * z
        y = 20.0 * j + 0.4 * self.warp * i - 0.5 * self.lean * (1 + (j + i) % 2) * z
        if self.flip_i:
            x = 50.0 - x
        if self.up:
            z = -z
        return np.array((self.scale * (x + 100.0), self.scale * (y + 200.0), (z + (1000.0 if not self.up else -1000.0))))

    def split(self):
        return any(len(g) > 1 for g in self.groups.values())

    def extras(self):
        """[(pillar, group index, columns)] of the coordinate lines beyond the first of each pillar, in order."""
        return [(p, g, cols) for p in sorted(self.groups) for g, cols in enumerate(self.groups[p]) if g > 0]

    def primary(self, n, j, i):
        return self.node(n, j, i, 0)

    def points(self):
        prim = np.array([[[self.node(n, j, i, 0)
                           for i in range(self.ni + 1)]
                          for j in range(self.nj + 1)]
                         for n in range(self.nn)])
        if not self.split():
            return prim
        ext = np.array([[self.node(n, p[0], p[1], g) for p, g, _ in self.extras()] for n in range(self.nn)])
        return np.concatenate((prim.reshape((self.nn, -1, 3)), ext), axis = 1)

    def right_handed(self, crs):
        det = not self.flip_i  # i x j . k in xyz, before z direction
        if self.up:
            det = not det
        return det == crs.is_right_handed_xyz()

    def raw_gap_after(self):
        return np.array(self.gaps, dtype = bool)


def build(model, crs, spec, title = 'grid', how = 'arrays', right_handed = None, define = True):
    """A Grid object with the geometry of the spec, not yet written."""
    from resqpy.grid import Grid
    import resqpy.rq_import as rqi
    rh = spec.right_handed(crs) if right_handed is None else right_handed
    if how == 'cp':
        g = rqi.grid_from_cp(model, spec.cp.copy(), crs.uuid, max_z_void = 0.1, split_tolerance = 0.01,
                             ijk_handedness = 'right' if rh else 'left')
        g.title = title
        g.grid_representation = 'IjkGrid'
        if spec.up != (not crs.z_inc_down):
            g.k_direction_is_down = False
        return g
    g = Grid(model, title = title)
    g.grid_representation = 'IjkGrid'
    g.extent_kji = np.array(spec.shape, dtype = int)
    g.nk, g.nj, g.ni = spec.shape
    g.k_direction_is_down = spec.up == (not crs.z_inc_down)
    g.grid_is_right_handed = rh
    g.pillar_shape = 'straight' if spec.lean else 'vertical'
    g.crs_uuid = crs.uuid
    g.crs = crs
    g.has_split_coordinate_lines = spec.split()
    if any(spec.gaps):
        g.k_gaps = sum(spec.gaps)
        g.k_gap_after_array = spec.raw_gap_after()
    g.k_raw_index_array = np.array(spec.raw, dtype = int)
    g.points_cached = spec.points()
    if spec.split():
        ex = spec.extras()
        g.split_pillars_count = len(ex)
        g.split_pillar_indices_cached = np.array([p[0] * (spec.ni + 1) + p[1] for p, _, _ in ex], dtype = int)
        g.cols_for_split_pillars = np.array([c[0] * spec.ni + c[1] for _, _, cols in ex for c in cols], dtype = int)
        g.cols_for_split_pillars_cl = np.cumsum([len(cols) for _, _, cols in ex]).astype(int)
    if not spec.holes:
        g.geometry_defined_for_all_pillars_cached = True
        g.geometry_defined_for_all_cells_cached = True
    elif define:
        g.set_geometry_is_defined()
    return g


def store(g, parametric = False):
    g.write_hdf5(use_parametric_lines = parametric)
    g.create_xml(use_parametric_lines = parametric)
    return g
