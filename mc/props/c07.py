"""C07: parallel processing with recombination gives the result of processing one after another, whatever the schedule.

(interleave) every interleaving of the steps of concurrent workers, on real joblib threads gated by a controlled scheduler;
(outcomes) every combination of worker outcomes and options;  (faults) a transient or lasting BlockingIOError at every hdf5
open of the recombination;  (late) files which materialise late;  (batches) the supplied wrappers, for every division of the
work over workers."""

import itertools
import os
import threading
import time
import uuid as pyuuid

import numpy as np

from mc import rq
from mc.core import expect
from mc.props import c05, c06

ID = 'C07'
TITLE = 'multiprocessing with recombination'
BOUNDS = {
    'quick': 'all 90 interleavings of 3 workers x 2 steps and 20 of 2 x 3 on joblib threads; all 64 outcome combinations of 3 '
             'workers x 16 options; BlockingIOError at each hdf5 open of recombination, 1 to 5 times in a row; 2 late files '
             'after 0..8 waits; batches of 0..4 items over 1..4 workers for 2 wrappers, find-faces wrapper x options',
    'thorough': 'all 1680 interleavings of 3 workers x 3 steps; faults at every pair of opens'
}


def warm(tier):
    import joblib  # noqa: F401
    import resqpy.multi_processing  # noqa: F401
    import resqpy.multi_processing.wrappers.blocked_well_mp  # noqa: F401
    import resqpy.multi_processing.wrappers.mesh_mp  # noqa: F401
    import resqpy.multi_processing.wrappers.grid_surface_mp  # noqa: F401
    c05.warm(tier)


class Turns:
    """A schedule: thread i may take its next step only when it is its turn."""

    def __init__(self, schedule):
        self.schedule, self.at, self.cv, self.late = list(schedule), 0, threading.Condition(), False

    def __call__(self, i):
        with self.cv:
            if not self.cv.wait_for(lambda: self.at >= len(self.schedule) or self.schedule[self.at] == i, timeout = 60.0):
                self.late = True
                raise RuntimeError('schedule cannot be realised')

    def done(self):
        with self.cv:
            self.at += 1
            self.cv.notify_all()


WORLD = {}  # index -> what the worker left behind


def build_one(m, index, kind, part):
    """Shared (equivalent) objects and objects of the worker's own; part: 0, 1, 2 or None for all."""
    import resqpy.crs as rqc
    import resqpy.lines as rql
    import resqpy.organize as rqo
    import resqpy.property as rqp
    import resqpy.surface as rqs
    z = WORLD[index]['u']
    if part in (0, None):
        c = rqc.Crs(m, title = 'c', x_offset = 10.0)
        c.create_xml()
        f = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = 'f')
        f.create_xml()
        g = rqo.OrganizationFeature(m, feature_name = f'g{index}', organization_kind = 'fluid')
        g.create_xml()
        z.update(c = c.uuid, f = f.uuid, g = g.uuid)
    if part in (1, None):
        i = rqo.FaultInterpretation(m, title = 'i', tectonic_boundary_feature = rqo.TectonicBoundaryFeature(m, uuid = z['f']),
                                    is_normal = True)
        i.create_xml()
        a = rql.Polyline(m, set_coord = np.arange(9.0).reshape((3, 3)) + index, set_crs = z['c'], is_closed = True,
                         title = f'a{index}', rep_int_root = m.root_for_uuid(i.uuid))
        a.write_hdf5()
        a.create_xml()
        z.update(i = i.uuid, a = a.uuid)
    if part in (2, None):
        s = rqs.PointSet(m, points_array = np.arange(6.0).reshape((2, 3)) * (index + 1), crs_uuid = z['c'], title = f's{index}')
        s.write_hdf5()
        s.create_xml()
        p = rqp.Property.from_array(m, np.array([1.5, 2.5]) + index, 'src', f'p{index}', s.uuid, property_kind = 'own kind',
                                    uom = 'm', indexable_element = 'nodes')
        m.create_reciprocal_relationship_uuids(z['g'], 'sourceObject', s.uuid, 'destinationObject')
        z.update(s = s.uuid, p = p.uuid)


def worker(index, parent_tmp_dir, kind = 'good', turns = None, steps = 3, form = 0):
    """kind: good / failed (with results) / empty (no results) / none (no epc)."""
    WORLD[index] = dict(u = {})
    d = os.path.join(parent_tmp_dir, f'w{index}')
    epc = os.path.join(d, 'part.epc')
    groups = [[0], [1], [2, 'end']] if steps == 3 else [[0, 1], [2, 'end']]
    m = None
    for group in groups:
        if turns is not None:
            turns(index)
        try:
            if m is None:
                os.makedirs(d)
                m = rq.new_model(epc, h5 = True)
                c05.open_h5(m, epc)
            for g in group:
                if g == 'end':
                    m.store_epc(quiet = True)
                    m.h5_release()
                elif kind not in ('empty', 'none'):
                    build_one(m, index, kind, g)
        finally:
            if turns is not None:
                turns.done()
    WORLD[index].update(snap = c05.snapshot(m, epc[:-4] + '.h5'), kind = kind, epc = epc, dir = parent_tmp_dir)
    z = WORLD[index]['u']
    listed = [] if kind in ('empty', 'none') else [z[k] for k in ('p', 'a', 'g')]
    WORLD[index]['listed'] = [u.int for u in listed]
    if form == 1:
        listed = [str(u) for u in listed]
    elif form == 2:
        listed = tuple(reversed(listed))
    return index, kind == 'good', None if kind == 'none' else epc, listed


SHARED = 'cfi'


def check(path, before, order, consolidate, what):
    """path: recombined epc;  before: (uuids by name, snapshot) of what was there beforehand, or None."""
    names, snap0 = before or ({}, {})
    first = dict(names)
    expected = dict(snap0)
    own = {}
    merged = {}
    for i in order:
        w = WORLD[i]
        mg = {}
        if consolidate and w['listed']:
            for n in SHARED + 'k':
                u = kind_uuid(w) if n == 'k' else w['u'][n]
                if n in first:
                    mg[u.int] = first[n].int
                else:
                    first[n] = u
        need, todo = set(), list(w['listed'])
        while todo:
            x = todo.pop()
            if x in need:
                continue
            need.add(x)
            if x not in mg:
                todo += w['snap'][x][3]
        for x in need - set(mg):
            expected[x] = w['snap'][x]
        own[i], merged[i] = need, mg
    rq.Stored(path).check_wellformed()
    q = rq.open_model(path)
    import resqpy.olio.consolidation as cons
    q.consolidation = cons.Consolidation(q)
    for i in order:
        q.consolidation.map.update(merged[i])
    got = {u.int for u in q.uuids()}
    expect(got == set(expected), what, ': recombined model has', len(got), 'parts; extra',
           [q.part_for_uuid(pyuuid.UUID(int = u)) for u in got - set(expected)], 'missing',
           [expected[u][0] for u in set(expected) - got])
    for i in order:
        rest = {u: v for u, v in expected.items() if u not in own[i] or u in merged[i]}
        mg = {u: v for u, v in merged[i].items() if u in own[i]}
        c06.verify(q, rest, WORLD[i]['snap'], mg, (what, 'worker', i), own[i])
    now = c05.snapshot(q, path[:-4] + '.h5')
    for u, v in expected.items():
        expect(same_arrays(now[u][6], v[6]), what, ': arrays of', v[0])
    for u in snap0:
        expect(now[u][:4] == snap0[u][:4], what, ': resident changed', snap0[u][0])
    return q


def same_arrays(a, b):
    return set(a) == set(b) and all(a[k] is not None and rq.same(a[k], b[k]) for k in a)


def kind_uuid(w):
    return pyuuid.UUID(int = [u for u, v in w['snap'].items() if 'PropertyKind' in v[0]][0])


def residents(ctx, with_equivalents):
    path = ctx.path('combo.epc')
    m = rq.new_model(path, h5 = True)
    c05.open_h5(m, path)
    import resqpy.crs as rqc
    import resqpy.organize as rqo
    names = {}
    o = rqo.OrganizationFeature(m, feature_name = 'resident', organization_kind = 'fluid')
    o.create_xml()
    if with_equivalents:
        c = rqc.Crs(m, title = 'c', x_offset = 10.0)
        f = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = 'f')
        c.create_xml()
        f.create_xml()
        names = dict(c = c.uuid, f = f.uuid)
    m.store_epc()
    m.h5_release()
    return path, (names, c05.snapshot(m, path[:-4] + '.h5'))


def go(path, kwargs, ctx, **kw):
    from resqpy.multi_processing import function_multiprocessing
    kw.setdefault('cluster', None)
    return function_multiprocessing(worker, kwargs, path, tmp_dir_path = ctx.dir(), **kw)


# ---- schedules ----------------------------------------------------------------------------------------------------
def schedules(n, k):
    """All interleavings of n threads of k steps."""

    def rec(left):
        if not any(left):
            yield ()
            return
        for i in range(n):
            if left[i]:
                nxt = list(left)
                nxt[i] -= 1
                for tail in rec(nxt):
                    yield (i,) + tail

    return list(rec([k] * n))


def _interleave(ctx, n, k, part, parts):
    for j, s in enumerate(schedules(n, k)):
        if j % parts == part:
            ctx.run((n, k, s), _interleave_case, ctx, n, k, s)


def _interleave_case(ctx, n, k, s):
    WORLD.clear()
    turns = Turns(s)
    path = ctx.path('combo.epc')
    kwargs = [dict(kind = 'good' if i != 1 else 'failed', turns = turns, steps = k) for i in range(n)]
    good = go(path, kwargs, ctx, cluster = 'yes', backend = 'threading')
    expect(list(good) == [i != 1 for i in range(n)], 'success list', good)
    expect(turns.at == len(s), 'not all steps taken', turns.at)
    check(path, None, range(n), True, ('schedule', s))
    expect(not os.path.exists(WORLD[0]['dir']), 'temporary directory not removed')
    ctx.step(len(s))
    ctx.state((n, k, s))


# ---- outcomes -----------------------------------------------------------------------------------------------------
KINDS = ('good', 'failed', 'empty', 'none')


def _outcomes(ctx, first, thorough):
    for rest in itertools.product(KINDS, repeat = 2):
        for existing, consolidate, require in itertools.product((None, False, True), (True, False), (False, True)):
            for clean in (True, False) if thorough or rest[0] == rest[1] else (True,):
                for form in range(3) if rest == ('good', 'good') else (0,):
                    key = ((first,) + rest, existing, consolidate, require, clean, form)
                    ctx.run(key, _outcome_case, ctx, *key)


def _outcome_case(ctx, kinds, existing, consolidate, require, clean, form):
    WORLD.clear()
    path, before = (ctx.path('combo.epc'), None) if existing is None else residents(ctx, existing)
    content = open(path, 'rb').read() if existing is not None else None
    kwargs = [dict(kind = k, form = form) for k in kinds]
    box = []
    e = rq.raises(lambda: box.append(go(path, kwargs, ctx, consolidate = consolidate, require_success = require,
                                        clean_up = clean)))
    if require and any(k != 'good' for k in kinds):
        expect(e is not None, 'no exception although success was required of', kinds)
        expect((open(path, 'rb').read() if os.path.exists(path) else None) == content, 'recombined epc modified despite failure')
        ctx.outcome('required')
    else:
        expect(e is None, 'failed with', repr(e))
        expect(list(box[0]) == [k == 'good' for k in kinds], 'success list', box[0], 'for', kinds)
        order = [i for i, k in enumerate(kinds) if k in ('good', 'failed')]
        check(path, before, order, consolidate, kinds)
        d = WORLD[0]['dir']
        expect(os.path.exists(d) is not clean, 'temporary directory: clean up is', clean, 'exists:', os.path.exists(d))
        if not clean:
            for i in range(3):
                expect(os.path.exists(WORLD[i]['epc']), 'temporary epc not left in place')
        ctx.outcome((existing, consolidate, kinds))
    ctx.step(3)
    ctx.state((kinds, existing, consolidate, require, clean, form))


# ---- faults -------------------------------------------------------------------------------------------------------
class Faults:
    """Stand-in for h5py.File: opening number k (from the start of recombination) fails the given number of times."""

    def __init__(self, plan):
        import h5py
        self.plan, self.count, self.on, self.real, self.raised = dict(plan), 0, False, h5py.File, 0
        self.names = []

    def __enter__(self):
        import h5py
        outer = self

        class File(self.real):

            def __init__(self, name, *a, **k):
                if outer.on:
                    outer.count += 1
                    outer.names.append(os.path.basename(str(name)))
                    if outer.plan.get(outer.count, 0) > 0:
                        # the same opening is the one that is tried again
                        outer.plan[outer.count] -= 1
                        outer.raised += 1
                        outer.count -= 1 if outer.count_again else 0
                        raise BlockingIOError(11, 'Resource temporarily unavailable')
                super().__init__(name, *a, **k)

        self.count_again = True
        h5py.File = File
        self.sleep = time.sleep
        time.sleep = lambda s: None
        return self

    def __exit__(self, *a):
        import h5py
        h5py.File = self.real
        time.sleep = self.sleep


def faulty_run(ctx, plan):
    WORLD.clear()
    path, before = residents(ctx, True)
    kwargs = [dict(kind = 'good') for _ in range(2)]
    box = []
    with Faults(plan) as f:
        def last(**kw):
            r = worker(**kw)
            f.on = kw['index'] == 1
            return r
        last.__name__ = 'worker'
        from resqpy.multi_processing import function_multiprocessing
        e = rq.raises(lambda: box.append(function_multiprocessing(last, kwargs, path, None, tmp_dir_path = ctx.dir())))
        f.on = False
    return path, before, e, box, f


def opens(ctx):
    return faulty_run(ctx, {})[4].count


def _faults(ctx, part, parts, thorough):
    n = opens(ctx)
    expect(n >= 8, 'openings during recombination', n)
    plans = [{k: j} for k in range(1, n + 1) for j in (1, 2, 4, 7)]
    if thorough:
        plans += [{a: 1, b: 2} for a, b in itertools.combinations(range(1, n + 1), 2)]
    else:
        plans += [{a: 1, a + 1: 2} for a in range(1, n)]
    for i, plan in enumerate(plans):
        if i % parts == part:
            ctx.run(sorted(plan.items()), _fault_case, ctx, plan)


def _fault_case(ctx, plan):
    path, before, e, box, f = faulty_run(ctx, plan)
    if max(plan.values()) >= 5:
        expect(isinstance(e, BlockingIOError), 'a lasting failure was not reported:', repr(e))
        ctx.outcome('lasting')
    else:
        expect(e is None, 'a transient failure was not recovered from:', repr(e))
        check(path, before, range(2), True, ('fault', sorted(plan.items())))
        ctx.outcome('transient')
    ctx.step(f.raised)
    ctx.state(sorted(plan.items()))


# ---- copying directly -------------------------------------------------------------------------------------------------
def _retry(ctx):
    """Copying of a part fails at an opening of a file; the model is as before, and another attempt succeeds."""
    for what in 'apsg':
        for k in range(1, 13):
            ctx.run((what, k), _retry_case, ctx, what, k)


def _retry_case(ctx, what, k):
    import h5py
    WORLD.clear()
    d = ctx.dir()
    worker(0, d)
    b = rq.open_model(WORLD[0]['epc'])
    path, before = residents(ctx, False)
    m = rq.open_model(path)
    u = WORLD[0]['u'][what]
    with Faults({k: 1}) as f:
        f.on = True
        e = rq.raises(m.copy_uuid_from_other_model, b, u)
        f.on = False
    m.check_catalogue_dictionaries()
    if e is not None:
        expect(m.part_for_uuid(u) is None, 'part present after failure to copy it')
        ctx.outcome('failed')
    expect(m.copy_uuid_from_other_model(b, u) == u, 'second attempt')
    need, todo = set(), [u.int]
    while todo:
        x = todo.pop()
        if x not in need:
            need.add(x)
            todo += WORLD[0]['snap'][x][3]
    for _ in range(2):
        c06.verify(m, before[1], {x: v[:5] + ({w for w in v[5] if w in need},) + v[6:] for x, v in WORLD[0]['snap'].items()}, {},
                   ('after second attempt', what, k), need)
        now = c05.snapshot(m, path[:-4] + '.h5')
        for x in need:
            expect(same_arrays(now[x][6], WORLD[0]['snap'][x][6]), 'arrays of', now[x][0])
            ext = [pyuuid.UUID(n.text) for p in m.root_for_uuid(pyuuid.UUID(int = x)).iter() if rq.local(p.tag) == 'HdfProxy'
                   for n in p if rq.local(n.tag) == 'UUID']
            expect(all(y == m.h5_uuid() for y in ext), 'hdf5 proxy of', now[x][0], 'is not that of the model')
        # removing the part and copying it again gives the same
        m.remove_part(m.part_for_uuid(u))
        expect(m.copy_uuid_from_other_model(b, u) == u, 'copy after removal')
    ctx.step(4)
    ctx.state((what, k))


# ---- late files -----------------------------------------------------------------------------------------------------
def _late(ctx):
    for a, b in itertools.product((0, 1, 2, 8), repeat = 2):
        for h in (0, 1):
            ctx.run((a, b, h), _late_case, ctx, (a, b), h)
    ctx.run('never', _never, ctx)


def late_run(ctx, waits, hidden_model):
    """Workers' epc files are moved away, and come back after the given numbers of sleeps."""
    WORLD.clear()
    path = ctx.path('combo.epc')
    store = {}
    count = [0]

    def fn(index, parent_tmp_dir):
        r = worker(index, parent_tmp_dir)
        if waits[index] is None or waits[index] > 0:
            os.rename(r[2], r[2] + '.away')
            store[index] = r[2]
        return r

    def sleep(s):
        count[0] += 1
        if count[0] > 4000:
            raise RuntimeError('endless wait')
        for i in list(store):
            if waits[i] is not None:
                waits[i] -= 1
                if waits[i] <= 0:
                    os.rename(store[i] + '.away', store.pop(i))

    real = time.sleep
    time.sleep = sleep
    try:
        from resqpy.multi_processing import function_multiprocessing
        e = rq.raises(function_multiprocessing, fn, [{}, {}], path, None, tmp_dir_path = ctx.dir())
    finally:
        time.sleep = real
    return path, e


def _late_case(ctx, waits, h):
    path, e = late_run(ctx, list(waits), h)
    expect(e is None, 'failed with', repr(e))
    check(path, None, range(2), True, ('late', waits))
    ctx.step(sum(waits))
    ctx.state((waits, h))


def _never(ctx):
    path, e = late_run(ctx, [0, None], 0)
    expect(isinstance(e, FileNotFoundError), 'an epc that never appears is not reported', repr(e))
    ctx.state('never')


# ---- batches --------------------------------------------------------------------------------------------------------
def regular(ctx, name = 'g.epc'):
    import resqpy.grid as grr
    import resqpy.property as rqp
    import resqpy.well as rqw
    path = ctx.path(name)
    m = rq.new_model(path, crs = True, h5 = True)
    g = grr.RegularGrid(m, extent_kji = (2, 3, 4), dxyz = (10.0, 20.0, 2.0), crs_uuid = m.uuid(obj_type = 'LocalDepth3dCrs'),
                        title = 'g')
    g.create_xml(add_cell_length_properties = True)
    props = []
    for t in range(4):
        a = np.arange(12.0).reshape((3, 4)) * (t + 1) + 0.5
        p = rqp.Property.from_array(m, a, 'src', f'p{t}', g.uuid, property_kind = 'depth' if t % 2 else 'length', uom = 'm',
                                    indexable_element = 'columns')
        props.append(p.uuid)
    trajs = []
    for t in range(4):
        x, y = 5.0 + 10.0 * t, 10.0 + 20.0 * (t % 3)
        d = rqw.MdDatum(m, crs_uuid = g.crs_uuid, location = (x, y, -10.0), title = f'd{t}')
        d.create_xml()
        cp = np.array([(x, y, -10.0), (x + 1.0, y + 1.0, 8.0)])
        tr = rqw.Trajectory(m, crs_uuid = g.crs_uuid, md_datum = d, mds = (0.0, 18.2), control_points = cp, length_uom = 'm',
                            well_name = f'w{t}')
        tr.write_hdf5()
        tr.create_xml()
        trajs.append(tr.uuid)
    m.store_epc()
    m.h5_release()
    return path, g.uuid, props, trajs


def _batches(ctx, which):
    for n in range(5):
        for k in range(1, 5):
            for order in (0, 1):
                ctx.run((which, n, k, order), _batch_case, ctx, which, n, k, order)


def _batch_case(ctx, which, n, k, order):
    import resqpy.grid as grr
    import resqpy.surface as rqs
    import resqpy.well as rqw
    from resqpy.multi_processing.wrappers import blocked_well_mp, mesh_mp
    path, gu, props, trajs = regular(ctx)
    out = ctx.path('combo.epc')
    items = (props if which == 'mesh' else trajs)[:n][::-1 if order else 1]
    if which == 'mesh':
        good = mesh_mp.mesh_from_regular_grid_column_property_batch(path, gu, items, out, None, k, tmp_dir_path = ctx.dir())
    else:
        good = blocked_well_mp.blocked_well_from_trajectory_batch(path, gu, path, items, out, None, k, tmp_dir_path = ctx.dir())
    expect(list(good) == [True] * k, 'success list', good)
    rq.Stored(out).check_wellformed()
    q = rq.open_model(out)
    m = rq.open_model(path)
    if which == 'mesh':
        us = q.uuids(obj_type = 'Grid2dRepresentation')
        expect(len(us) == n, 'meshes', len(us), 'for', n, 'properties')
        seen = []
        for u in us:
            a = rqs.Mesh(q, uuid = u)
            src = m.uuid(title = a.title, obj_type = 'ContinuousProperty')
            b = rqs.Mesh.from_regular_grid_column_property(m, gu, src)
            expect(rq.same(a.full_array_ref(), b.full_array_ref()), 'mesh differs from that made directly')
            seen.append(src)
        expect(set(seen) == set(items), 'properties with a mesh', seen)
    else:
        us = q.uuids(obj_type = 'BlockedWellboreRepresentation')
        expect(len(us) == n, 'blocked wells', len(us), 'for', n, 'trajectories')
        seen = []
        grid = grr.any_grid(m, uuid = gu)
        for u in us:
            a = rqw.BlockedWell(q, uuid = u)
            tu = a.trajectory.uuid
            b = rqw.BlockedWell(m, grid = grid, trajectory = rqw.Trajectory(m, uuid = tu))
            for att in ('node_mds', 'cell_indices', 'grid_indices', 'face_pair_indices'):
                expect(rq.same(np.array(getattr(a, att)), np.array(getattr(b, att))), 'blocked well', att, 'differs')
            seen.append(tu)
        expect(set(seen) == set(items), 'trajectories with a blocked well', seen)
    ctx.step(n)
    ctx.state((which, n, k, order))


PROPERTIES = ['triangle', 'depth', 'offset', 'flange bool', 'grid bisector', 'grid shadow']


def _faces(ctx):
    subsets = [()] + [(p,) for p in PROPERTIES if p != 'flange bool'] + [('triangle', 'depth', 'offset', 'grid bisector')]
    for props in subsets:
        for curtain in (False, True):
            for real in (False, True):
                if curtain and 'grid shadow' in props:
                    continue  # a shadow is cast by K faces, which a curtain does not have
                ctx.run((props, curtain, real), _faces_case, ctx, props, curtain, real)


def _faces_case(ctx, props, curtain, real):
    import resqpy.grid as grr
    import resqpy.grid_surface as rqgs
    import resqpy.property as rqp
    import resqpy.surface as rqs
    from resqpy.multi_processing import function_multiprocessing
    from resqpy.multi_processing.wrappers.grid_surface_mp import find_faces_to_represent_surface_regular_wrapper
    path, gu, _, _ = regular(ctx)
    m = rq.open_model(path)
    crs = grr.any_grid(m, uuid = gu).crs_uuid
    surfs = []
    for j in range(2):
        if curtain:
            x = 14.0 + 10.0 * j
            p = np.array([(x, -5.0, -5.0), (x, 65.0, -5.0), (x + 3.0, 65.0, 15.0), (x + 3.0, -5.0, 15.0)])
        else:
            z = 1.8 + 0.9 * j
            p = np.array([(-5.0, -5.0, z), (45.0, -5.0, z), (45.0, 65.0, z + 0.5), (-5.0, 65.0, z + 0.5)])
        s = rqs.Surface(m, crs_uuid = crs, title = f's{j}')
        s.set_from_triangles_and_points(np.array([(0, 1, 2), (0, 2, 3)]), p)
        s.write_hdf5()
        s.create_xml()
        surfs.append(s.uuid)
    m.store_epc()
    m.h5_release()
    out = ctx.path('combo.epc')
    kwargs = [dict(use_index_as_realisation = real, grid_epc = path, grid_uuid = gu, surface_epc = path, surface_uuid = u,
                   name = f'n{j}', title = f't{j}', trimmed = True, is_curtain = curtain, related_uuid = u,
                   return_properties = list(props) if props else None) for j, u in enumerate(surfs)]
    good = function_multiprocessing(find_faces_to_represent_surface_regular_wrapper, kwargs, out, None, tmp_dir_path = ctx.dir())
    expect(list(good) == [True, True], 'success list', good)
    rq.Stored(out).check_wellformed()
    q = rq.open_model(out)
    expect(len(q.uuids(obj_type = 'LocalDepth3dCrs')) == 1 and len(q.uuids(obj_type = 'IjkGridRepresentation')) == 1,
           'crs and grid are duplicated')
    us = q.uuids(obj_type = 'GridConnectionSetRepresentation')
    expect(len(us) == 2, 'grid connection sets', len(us))
    grid = grr.any_grid(m, uuid = gu)
    for j, su in enumerate(surfs):
        import resqpy.fault as rqf
        direct = rqgs.find_faces_to_represent_surface_regular_optimised(grid, rqs.Surface(m, uuid = su), f'n{j}', title = f't{j}',
                                                              is_curtain = curtain, return_properties = list(props) if props else
                                                              None)
        arrays = {}
        if isinstance(direct, tuple):
            direct, arrays = direct
        gcs = rqf.GridConnectionSet(q, uuid = q.uuid(obj_type = 'GridConnectionSetRepresentation', title = f't{j}'))
        gcs.cache_arrays()
        a = sorted(map(tuple, np.concatenate((gcs.cell_index_pairs, gcs.face_index_pairs), axis = 1).tolist()))
        b = sorted(map(tuple, np.concatenate((direct.cell_index_pairs, direct.face_index_pairs), axis = 1).tolist()))
        expect(a == b and len(a) > 0, 'faces differ from those found directly', len(a), len(b))
        expect(gcs.uuid in q.uuids(related_uuid = su), 'relationship with', j)
        same_order = rq.same(gcs.cell_index_pairs, direct.cell_index_pairs)
        for p in props:
            pu = q.uuids(title = f's{j} {p}')
            expect(len(pu) == 1, 'properties', p, 'for', j, ':', len(pu))
            pr = rqp.Property(q, uuid = pu[0])
            support = gu if p.startswith('grid ') else gcs.uuid
            expect(str(pr.collection.support_uuid) == str(support), 'support of', p)
            expect(pr.realization() == (j if real else None), 'realization of', p, pr.realization())
            d = arrays[p][0] if p == 'grid bisector' else arrays[p]
            v = pr.array_ref()
            if p == 'grid bisector' and not curtain or p == 'grid shadow':
                expect(rq.same(np.array(v), np.array(d).astype(v.dtype)), 'values of', p)
            elif same_order and p in ('offset', 'triangle'):
                expect(np.allclose(np.array(v, dtype = float), np.array(d, dtype = float), equal_nan = True), 'values of', p)
    ctx.step(2)
    ctx.state((props, curtain, real))


def jobs(tier):
    t = tier == 'thorough'
    js = [(f'interleave:2x3:{p}', _interleave, dict(n = 2, k = 3, part = p, parts = 2)) for p in range(2)]
    js += [(f'interleave:3x2:{p}', _interleave, dict(n = 3, k = 2, part = p, parts = 6)) for p in range(6)]
    if t:
        js += [(f'interleave:3x3:{p}', _interleave, dict(n = 3, k = 3, part = p, parts = 24)) for p in range(24)]
    js += [(f'outcomes:{k}', _outcomes, dict(first = k, thorough = t)) for k in KINDS]
    js += [(f'faults:{p}', _faults, dict(part = p, parts = 6, thorough = t)) for p in range(6)]
    js += [('retry', _retry, {}), ('late', _late, {}), ('batches:mesh', _batches, dict(which = 'mesh')),
           ('batches:well', _batches, dict(which = 'well')), ('faces', _faces, {})]
    return js
