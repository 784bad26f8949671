"""C04: arrays put in the hdf5 file come back unchanged.

(write) every combination of shape x source dtype x requested dtype x chunking x compression x global defaults is written
with H5Register and read with h5py and through every reading route of the model;  (history) explicit-state search over
histories of write / overwrite / slice overwrite / cached and uncached reads / release / re-open / copies against a dict
of numpy arrays;  (copy) copy_h5, copy_h5_path_list and change_uuid over every inclusion / exclusion subset."""

import itertools
import os
import types
import uuid as pyuuid

import numpy as np

from mc import rq
from mc.core import expect

ID = 'C04'
TITLE = 'hdf5 array store fidelity'
BOUNDS = {
    'quick': '10 shapes x 7 source dtypes x 5 requested dtypes x 6 chunkings x 4 compressions x 3 global defaults x 2 '
             'integer widths (valid combinations), every element / leading index / slice / reshape read; histories of 12 '
             'operations on 2 arrays up to depth 4 (all) on the real hdf5 file; all 8 subsets of 3 groups for the copies',
    'thorough': 'histories up to depth 5'
}
SHAPES = [(1,), (3,), (9,), (2, 3), (2, 9), (3, 8), (2, 3, 2), (1, 2, 9), (1, 1, 1), (2, 1)]
SRC = ['float64', 'float32', 'int64', 'int32', 'int16', 'uint8', 'bool']
REQ = [None, 'float32', 'int32', 'uint8', 'pack']
CHUNKS = [None, 'auto', 'all', 'slice', 'none', 'tuple']
COMP = [None, 'gzip', 'lzf', 'none']
GLOB = [(None, None), ('slice', 'gzip'), ('all', None)]
UA = pyuuid.UUID('11111111-0000-1000-8000-000000000001')
UB = pyuuid.UUID('21111111-0000-1000-8000-000000000002')
UC = pyuuid.UUID('31111111-0000-1000-8000-000000000003')


def warm(tier):
    import resqpy.model, resqpy.olio.write_hdf5, h5py  # noqa


def jobs(tier):
    js = [(f'write:{s}', _write, dict(shape = s)) for s in SHAPES]
    js += [('zero', _zero, {})]
    depth = 5 if tier == 'thorough' else 4
    for first in OPS:
        js.append((f'history:{first}', _history, dict(first = first, depth = depth)))
    js.append(('copy', _copy, {}))
    js.append(('override', _override, {}))
    return js


def data(shape, dtype, salt = 0):
    n = int(np.prod(shape))
    a = np.arange(n) * 7 + salt
    if dtype == 'bool':
        return ((a * a + a // 3) % 3 == 1).reshape(shape)
    if dtype.startswith('float'):
        a = a + (0.0 if salt else 0.25)
        a = a.astype(dtype)
        if n > 2:
            a[1] = np.nan
        return a.reshape(shape)
    if dtype != 'uint8':
        a = a - 5
    return a.astype(dtype).reshape(shape)


def valid(src, req):
    if req == 'pack':
        return src == 'bool'
    if src.startswith('float') and req in ('int32', 'uint8'):
        return False  # loses information
    if src in ('int64', 'int32', 'int16') and req == 'uint8':
        return False
    return True


def _write(ctx, shape):
    for src, req, glob in itertools.product(SRC, REQ, GLOB):
        if valid(src, req):
            ctx.run((shape, src, req, glob), _write_case, ctx, shape, src, req, glob)


def _write_case(ctx, shape, src, req, glob):
    import h5py
    import resqpy.olio.write_hdf5 as rwh5
    m = rq.new_model(ctx.path(), h5 = True)
    rwh5.set_global_default_chunks_and_compression(*glob)
    try:
        combos = list(itertools.product(CHUNKS, COMP, (None, False, True)))
        for ri, use32 in enumerate((None, False, True)):
            reg = rwh5.H5Register(m)
            for n, (ch, co, u32) in enumerate(combos):
                if u32 is not use32:
                    continue
                chunks = tuple(max(1, s // 2) for s in _stored_shape(shape, req)) if ch == 'tuple' else ch
                a = data(shape, src, n)
                keep = a.copy()
                reg.register_dataset(UA, ('/t%d/' if n % 2 else 't%d') % n, a, dtype = req, chunks = chunks, compression = co,
                                     copy = n % 3 == 0)

                expect(rq.same(a, keep) and a.dtype == keep.dtype, 'array changed by registration')
            reg.write(mode = 'a' if ri else 'w', use_int32 = use32)
    finally:
        rwh5.set_global_default_chunks_and_compression(None, None)
    with h5py.File(m.epc_file[:-4] + '.h5', 'r') as f:
        for n, (ch, co, u32) in enumerate(combos):
            d = f[f'/RESQML/{UA}/t{n}']
            a = data(shape, src, n)
            want = np.packbits(a, axis = -1) if req == 'pack' else a
            expect(rq.same(d[()].astype(want.dtype), want.astype(req) if req not in (None, 'pack') else want),
                   'values', (ch, co, u32), d[()], want)
            if req == 'pack' or (src == 'bool' and req is None):
                wt = 'uint8'
            elif req is not None:
                wt = req
            elif src == 'int64' and u32 is not False:
                wt = 'int32'
            else:
                wt = src
            expect(str(d.dtype) == wt, 'dtype', (ch, co, u32), d.dtype, 'expected', wt)
            # chunking and compression as asked for
            gch, gco = glob
            if gco not in (None, 'none') and gch in (None, 'none'):
                gch = 'auto'
            ech, eco = (gch if ch is None else ch), (gco if co is None else co)
            eco = None if eco == 'none' else eco
            expect(d.compression == eco, 'compression', (ch, co, u32), d.compression, 'expected', eco)
            if ech in (None, 'none') and eco is None:
                expect(d.chunks is None, 'chunked though not asked for', (ch, co))
            elif ech == 'all' or (ech == 'slice' and d.ndim == 1):
                expect(d.chunks == d.shape, 'chunks', (ch, co), d.chunks)
            elif ech == 'slice':
                expect(d.chunks == (1,) + d.shape[1:], 'chunks', (ch, co), d.chunks)
            elif ech == 'tuple':
                expect(d.chunks == tuple(max(1, s // 2) for s in d.shape), 'chunks', (ch, co), d.chunks)
            else:
                expect(d.chunks is not None, 'not chunked', (ch, co))
            ctx.step()
            ctx.state((shape, src, req, glob, ch, co, u32, d.chunks))
    for n in ((0, len(combos) - 1) if glob == GLOB[0] else ()):
        _read_routes(ctx, m, (m.h5_uuid(), f'/RESQML/{UA}/t{n}'), data(shape, src, n).astype(
            req) if req not in (None, 'pack') else data(shape, src, n), req == 'pack')
    m.h5_release()


def _stored_shape(shape, req):
    return shape if req != 'pack' else shape[:-1] + ((shape[-1] + 7) // 8,)


def factorizations(shape):
    n = int(np.prod(shape))
    out = {shape, (n,)}
    for a in range(1, n + 1):
        if n % a == 0:
            out.add((a, n // a))
            for b in range(1, n // a + 1):
                if (n // a) % b == 0:
                    out.add((a, b, n // a // b))
    return sorted(s for s in out if len(s) <= 3)


def _read_routes(ctx, m, key, want, packed):
    shape = want.shape
    kind = want.dtype.kind
    dts = {'f': ['float', float, np.float64], 'i': ['int', int, 'int32'], 'u': ['int', 'uint8', int], 'b': ['bool', bool]}[kind]
    if packed:
        dts = ['bool', bool, 'pack']
    else:
        sh, dt = m.h5_array_shape_and_type(key)
        expect(sh == shape, 'stored shape', sh)
    for dt in dts:
        rshapes = [shape] if packed else [None] + factorizations(shape)
        for rs in rshapes if dt == dts[0] else rshapes[:2]:
            full = want if rs is None else want.reshape(rs)
            # whole array cached
            o = types.SimpleNamespace()
            r = m.h5_array_element(key, index = None, cache_array = True, object = o, array_attribute = 'a', dtype = dt,
                                   required_shape = rs)
            expect(r is None and rq.same(o.a, full), 'cached array', dt, rs, o.a, full)
            last = None
            for ix in np.ndindex(*full.shape):
                got = m.h5_array_element(key, index = ix, cache_array = True, object = o, array_attribute = 'a', dtype = dt,
                                         required_shape = rs)
                expect(rq.same(got, full[ix]), 'element of cached array', dt, rs, ix, got, full[ix])
                last = ix
            o2 = types.SimpleNamespace()
            got = m.h5_array_element(key, index = last, cache_array = True, object = o2, array_attribute = 'b', dtype = dt,
                                     required_shape = rs)
            expect(rq.same(got, full[last]) and rq.same(o2.b, full), 'element with caching', dt, rs, last, got)
            # elements without caching
            for ix in np.ndindex(*full.shape):
                got = m.h5_array_element(key, index = ix, dtype = dt, required_shape = rs)
                expect(rq.same(got, full[ix]), 'element without caching', dt, rs, ix, got, full[ix])
            ctx.step(2 * full.size + 2)
            if full.ndim > 1 and len(shape) > 1 and (rs is None or rs == shape or rs[-1] == shape[-1]):
                for ix in np.ndindex(*full.shape[:-1]):
                    got = m.h5_array_element(key, index = ix, dtype = dt, required_shape = rs)
                    expect(rq.same(got, full[ix]) or (got is not None and np.size(got) == 1 and rq.same(np.reshape(got, (1,)), full[ix])),
                           'row without caching', dt, rs, ix, got, full[ix])
                    ctx.step()
    if not packed:
        sl = [(slice(0, 1),), (slice(None),), (slice(1, None),), (slice(0, None, 2),)]
        for t in itertools.product(*[[x[0] for x in sl]] * len(shape)):
            got = m.h5_array_slice(key, t)
            expect(rq.same(got, want[t]), 'slice', t, got)
            ctx.step()


def _zero(ctx):
    for shape in ((0,), (0, 3), (2, 0)):
        for src in ('float64', 'int64', 'bool'):
            ctx.run((shape, src), _zero_case, ctx, shape, src)


def _zero_case(ctx, shape, src):
    import resqpy.olio.write_hdf5 as rwh5
    m = rq.new_model(ctx.path(), h5 = True)
    reg = rwh5.H5Register(m)
    reg.register_dataset(UA, 'x', np.zeros(shape, dtype = src))
    reg.write(mode = 'a')
    o = types.SimpleNamespace()
    m.h5_array_element((m.h5_uuid(), f'/RESQML/{UA}/x'), cache_array = True, object = o, array_attribute = 'a', dtype = src)
    expect(o.a.shape == shape, 'shape of empty array', o.a.shape)
    ctx.step()
    ctx.state((shape, src))


# ---- histories ----------------------------------------------------------------------------------------------------
OPS = ['new_a', 'new_b', 'over_a', 'over_b', 'slice_a', 'slice_b', 'read_a', 'read_b', 'cache_a', 'release', 'reopen', 'other']


def _history(ctx, first, depth):
    for k in range(depth):
        for rest in itertools.product(OPS, repeat = k):
            seq = (first,) + rest
            # a history that only reads, or repeats a no-effect tail, adds nothing: keep those ending in a check
            if seq[-1] in ('release', 'reopen', 'other') and len(seq) > 1 and seq[-1] == seq[-2]:
                continue
            if sum(1 for s in seq if s.startswith('new')) == 0:
                continue
            ctx.run(seq, _history_case, ctx, seq)


def _history_case(ctx, seq):
    import resqpy.olio.write_hdf5 as rwh5
    path = ctx.path()
    m = rq.new_model(path, h5 = True)
    m.store_epc()
    ref = {}
    uu = {'a': UA, 'b': UB}
    shape = {'a': (2, 3), 'b': (4,)}
    dt = {'a': 'float64', 'b': 'int32'}
    key = {x: (m.h5_uuid(), f'/RESQML/{uu[x]}/v') for x in uu}
    holder = types.SimpleNamespace()
    cached = None
    for n, op in enumerate(seq):
        what, _, x = op.partition('_')
        if what == 'new':
            if x in ref:
                # the array is already there: nothing may be lost or changed
                reg = rwh5.H5Register(m)
                reg.register_dataset(uu[x], 'v', data(shape[x], dt[x], 50 + n))
                expect(rq.raises(reg.write, mode = 'a') is not None, 'existing array silently replaced')
                m.h5_release()
            else:
                reg = rwh5.H5Register(m)
                a = data(shape[x], dt[x], 3 + n)
                reg.register_dataset(uu[x], 'v', a)
                reg.write(mode = 'a', release_after = n % 2 == 0)
                ref[x] = a
        elif what in ('over', 'slice', 'read', 'cache') and x not in ref:
            e = rq.raises(m.h5_array_slice, key[x], (slice(None),))
            expect(e is not None, 'array appeared', x)
        elif what == 'over':
            a = data(shape[x], dt[x], 20 + n)
            m.h5_overwrite_array(key[x], a)
            ref[x] = a
        elif what == 'slice':
            t = (slice(0, 2), slice(1, 2)) if x == 'a' else (slice(1, 3),)
            a = ref[x].copy()
            a[t] = 1000 + n
            m.h5_overwrite_array_slice(key[x], t, a[t])
            ref[x] = a
        elif what == 'read':
            full = tuple(slice(None) for _ in shape[x])
            expect(rq.same(m.h5_array_slice(key[x], full), ref[x]), 'read', x)
            ix = tuple(s - 1 for s in shape[x])
            got = m.h5_array_element(key[x], index = ix, dtype = dt[x])
            expect(rq.same(got, ref[x][ix]), 'element', x, got, ref[x][ix])
        elif what == 'cache':
            got = m.h5_array_element(key[x], index = (1, 2), cache_array = True, object = holder, array_attribute = 'c', dtype = dt[x])
            if cached is None:
                cached = ref[x].copy()
            expect(rq.same(got, cached[1, 2]) and rq.same(holder.c, cached), 'cached copy')
        elif what == 'release':
            m.h5_release()
            expect(m.h5_currently_open_root is None and m.h5_currently_open_mode is None, 'still open after release')
        elif what == 'reopen':
            m.h5_release()
            m = rq.open_model(path)
        elif what == 'other':
            m.h5_clear_filename_cache()
            expect(os.path.samefile(m.h5_file_name(), path[:-4] + '.h5'), 'hdf5 file name')
        ctx.step()
        ctx.state((seq[:n + 1], {k: v for k, v in ref.items()}))
    m.h5_release()
    disk = rq.h5_content(path[:-4] + '.h5')
    expect(set(disk) == {key[x][1] for x in ref}, 'datasets in the file', set(disk))
    for x in ref:
        expect(rq.same(disk[key[x][1]], ref[x]), 'array in the file', x, disk[key[x][1]], ref[x])
    if cached is not None:
        expect(rq.same(holder.c, cached), 'cached copy changed')


# ---- copies -------------------------------------------------------------------------------------------------------
def _copy(ctx):
    ids = (UA, UB, UC)
    subsets = [s for k in range(4) for s in itertools.combinations(ids, k)]
    for kind in ('inclusion', 'exclusion', 'neither'):
        for sub in subsets if kind != 'neither' else [()]:
            for mode in 'wa':
                for present in subsets[:4]:
                    ctx.run(('copy_h5', kind, [str(u)[:2] for u in sub], mode, [str(u)[:2] for u in present]), _copy_case, ctx, kind, sub,
                            mode, present)
    paths = [(u, t) for u in ids for t in ('v', 'g/w')]
    for k in range(4):
        for sel in itertools.combinations(paths, k):
            for mode in 'wa':
                for ch, co in ((None, None), ('auto', None), ('all', 'gzip'), (None, 'lzf')):
                    ctx.run(('paths', [(str(u)[:2], t) for u, t in sel], mode, ch, co), _path_case, ctx, sel, mode, ch, co)
    for u in ids:
        for by_name in (True, False):
            ctx.run(('uuid', str(u)[:2], by_name), _uuid_case, ctx, u, by_name)


def _source(ctx):
    import resqpy.olio.write_hdf5 as rwh5
    d = ctx.dir()
    m = rq.new_model(os.path.join(d, 's.epc'), h5 = True)
    reg = rwh5.H5Register(m)
    for n, u in enumerate((UA, UB, UC)):
        reg.register_dataset(u, 'v', data((2, 3), 'float64', n))
        reg.register_dataset(u, 'g/w', data((5,), 'int32', n))
    reg.write(mode = 'a')
    return d, os.path.join(d, 's.h5')


def _copy_case(ctx, kind, sub, mode, present):
    import h5py
    import resqpy.olio.write_hdf5 as rwh5
    d, src = _source(ctx)
    before = rq.h5_content(src)
    out = os.path.join(d, 'o.h5')
    with h5py.File(out, 'w') as f:
        for u in present:
            f[f'/RESQML/{u}/v'] = np.array([9.0])
    sel = {'inclusion': set(sub), 'exclusion': {UA, UB, UC} - set(sub), 'neither': {UA, UB, UC}}[kind]
    kw = {} if kind == 'neither' else {f'uuid_{kind}_list': list(sub)}
    n = rwh5.copy_h5(src, out, mode = mode, **kw)
    have = {f'/RESQML/{u}/v': np.array([9.0]) for u in present} if mode == 'a' else {}
    new = sel - (set(present) if mode == 'a' else set())
    for u in new:
        have.update({k: v for k, v in before.items() if str(u) in k})
    got = rq.h5_content(out)
    expect(n == len(new), 'copy count', n, len(new))
    expect(set(got) == set(have) and all(rq.same(got[k], have[k]) for k in have), 'copied arrays', sorted(got), sorted(have))
    after = rq.h5_content(src)
    expect(set(after) == set(before) and all(rq.same(after[k], before[k]) for k in before), 'source changed')
    ctx.step()
    ctx.state((kind, [str(u) for u in sub], mode, sorted(got)))


def _path_case(ctx, sel, mode, ch, co):
    import h5py
    import resqpy.olio.write_hdf5 as rwh5
    d, src = _source(ctx)
    before = rq.h5_content(src)
    out = os.path.join(d, 'o.h5')
    with h5py.File(out, 'w') as f:
        f[f'/RESQML/{UA}/v'] = np.array([9.0])
    paths = [f'/RESQML/{u}/{t}' for u, t in sel]
    n = rwh5.copy_h5_path_list(src, out, paths, mode = mode, chunks = ch, compression = co)
    have = {f'/RESQML/{UA}/v': np.array([9.0])} if mode == 'a' else {}
    new = [p for p in paths if p not in have]
    have.update({p: before[p] for p in new})
    got = rq.h5_content(out)
    expect(n == len(new), 'copy count', n, len(new))
    expect(set(got) == set(have) and all(rq.same(got[k], have[k]) and got[k].dtype == have[k].dtype for k in have),
           'copied arrays', sorted(got), sorted(have))
    with h5py.File(out, 'r') as f:
        for p in new:
            expect(f[p].compression == co and (f[p].chunks is not None) == (ch is not None or co is not None), 'storage options', p)
    ctx.step()
    ctx.state((paths, mode, ch, co))


def _uuid_case(ctx, u, by_name):
    import h5py
    import resqpy.olio.write_hdf5 as rwh5
    d, src = _source(ctx)
    before = rq.h5_content(src)
    new = pyuuid.UUID(int = 99)
    if by_name:
        rwh5.change_uuid(src, u, new)
    else:
        with h5py.File(src, 'r+') as f:
            rwh5.change_uuid(f, u, new)
    got = rq.h5_content(src)
    want = {k.replace(str(u), str(new)): v for k, v in before.items()}
    expect(set(got) == set(want) and all(rq.same(got[k], want[k]) for k in want), 'after change of uuid', sorted(got))
    ctx.step()


# ---- which file ---------------------------------------------------------------------------------------------------
def _override(ctx):
    for stored in ('same', 'other', 'abs'):
        for default in ('full', 'dir', 'none'):
            for arg in ('default', 'full', 'dir', 'none', True, False):
                ctx.run((stored, default, arg), _override_case, ctx, stored, default, arg)


def _override_case(ctx, stored, default, arg):
    """The rels target names a file: which of three candidate files is used is fixed by the override mode alone."""
    import h5py
    d, e = ctx.dir(), ctx.dir()
    path = os.path.join(d, 'm.epc')
    target = {'same': 'm.h5', 'other': 'x.h5', 'abs': os.path.join(e, 'x.h5')}[stored]
    m = rq.new_model(path, h5 = False)
    m.create_hdf5_ext(file_name = target if stored == 'abs' else os.path.join(d, target))
    if stored == 'abs':
        m.change_filename_in_hdf5_rels(target)
    m.store_epc()
    for n, f in enumerate((os.path.join(d, 'm.h5'), os.path.join(d, 'x.h5'), os.path.join(e, 'x.h5'))):
        with h5py.File(f, 'w') as h:
            h[f'/RESQML/{UA}/v'] = np.array([float(n)])
    m = rq.open_model(path)
    m.h5_set_default_override(default)
    mode = {'default': default, True: 'full', False: 'dir'}.get(arg, arg)
    want = {('same', 'full'): 0, ('same', 'dir'): 0, ('same', 'none'): 0, ('other', 'full'): 0, ('other', 'dir'): 1, ('other', 'none'): 1,
            ('abs', 'full'): 0, ('abs', 'dir'): 1, ('abs', 'none'): 2}[(stored, mode)]
    for u in (None, m.h5_uuid(), str(m.h5_uuid())):
        m.h5_clear_filename_cache()
        with_file = m.h5_file_name(uuid = u, override = arg)
        expect(os.path.exists(with_file), 'file does not exist', with_file)
        f = m.h5_access(uuid = u if not isinstance(u, str) else None, override = arg)
        got = f[f'/RESQML/{UA}/v'][0]
        m.h5_release()
        expect(got == want, 'wrong file used', stored, default, arg, with_file)
        ctx.step()
    ctx.state((stored, default, arg))
