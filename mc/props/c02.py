"""C02: storing a model and opening it again gives back the same model.

Exhaustive families:  (text) every string of up to two characters over an alphabet of awkward characters in every free
text slot of a part;  (names) epc file names over awkward characters x ways of opening x hdf5 override modes;
(context) every mode x existing file x body outcome of ModelContext, in every sequence of two contexts;
(zoo) a model with an object of nearly every class, stored and re-opened through every chain of three store / open
variants, compared as canonical xml, relationships and hdf5 content."""

import itertools
import os
import re
import shutil
import zipfile

import numpy as np

from mc import rq, zoo
from mc.core import expect

ID = 'C02'
TITLE = 'store and re-open fidelity'
CHARS = ['&', '<', '>', '"', "'", ' ', 'a', '\u00e9', '\u4e2d', ';', '/', '\\', '%', '{', '=', '#', ':', '|', '\t',
         '\U0001f30d']
BOUNDS = {
    'quick': f'all strings of length 1 and 2 over {len(CHARS)} characters in 6 text slots, stored twice; 34 file names x '
             '6 ways of opening; 3 modes x 2 x 3 context steps in sequences of 2; zoo model of 11 class families '
             'under all chains of 3 store/open variants',
    'thorough': 'all strings up to length 3 in the text slots; contexts in sequences of 3; zoo chains of length 4'
}


def warm(tier):
    import resqpy.model, resqpy.property, resqpy.organize  # noqa
    import resqpy.well, resqpy.surface, resqpy.lines, resqpy.unstructured, resqpy.fault, resqpy.strata, resqpy.rq_import
    import resqpy.time_series, resqpy.olio.relperm, resqpy.olio.dataframe  # noqa
    import tempfile
    d = tempfile.mkdtemp()
    m = rq.new_model(os.path.join(d, 'w.epc'), h5 = True)
    zoo.build(m)


def jobs(tier):
    n = 3 if tier == 'thorough' else 2
    texts = [''.join(t) for k in range(1, n + 1) for t in itertools.product(CHARS, repeat = k)]
    js = []
    for i, part in enumerate(rq.chunks(texts, 24 if n == 3 else 4)):
        js.append((f'text:{i}', _texts, dict(texts = part)))
    names = [f'a{c}b' for c in CHARS if c not in '/\\\t'] + ['.hidden', 'x.epc.y', ' lead', 'a.b.c', 'UPPER', 'x y z']
    for i, part in enumerate(rq.chunks(names, 4)):
        js.append((f'names:{i}', _names, dict(names = part)))
    for ops in ('add', 'remove', 'copy', 'import'):
        js.append((f'modified:{ops}', _modified, dict(op = ops)))
    js.append(('context', _contexts, dict(depth = 3 if tier == 'thorough' else 2)))
    for s in zoo.SECTIONS:
        js.append((f'zoo:{s}', _zoo, dict(section = s, depth = 4 if tier == 'thorough' else 3)))
    return js


# ---- text payloads ------------------------------------------------------------------------------------------------
def _texts(ctx, texts):
    for block in [texts[i:i + 40] for i in range(0, len(texts), 40)]:
        ctx.run(repr(block), _text_case, ctx, block)


def _norm(s):
    return None if s is None else s.strip()


def _text_case(ctx, block):
    import resqpy.organize as rqo
    import resqpy.property as rqp
    path = ctx.path()
    m = rq.new_model(path)
    rec = []
    for n, s in enumerate(block):
        title = f'p{n} {s}'
        f = rqo.BoundaryFeature(m, feature_name = title, originator = 'me ' + s, extra_metadata = {'k ' + s + ' k': 'v' + s + 'v'})
        f.create_xml(reuse = False)
        i = rqo.BoundaryFeatureInterpretation(m, title = s, boundary_feature = f)
        i.create_xml(reuse = False)
        lut = rqp.StringLookup(m, int_to_str_dict = {1: 'u' + s + 'u', 3: s + '.'}, title = 'lut ' + s + ' e')
        lut.create_xml()
        rec.append((s, title, f.uuid, i.uuid, lut.uuid))
    ctx.step(3 * len(block))
    for cycle in range(2):
        m.store_epc()
        st = rq.Stored(path)
        st.check_wellformed()
        m = rq.open_model(path)
        for s, title, fu, iu, lu in rec:
            f = rqo.BoundaryFeature(m, uuid = fu)
            expect(_norm(f.feature_name) == _norm(title), 'title changed', repr(title), repr(f.feature_name))
            expect(_norm(f.originator) == _norm('me ' + s), 'originator changed', repr(s), repr(f.originator))
            em = {_norm(k): v for k, v in f.extra_metadata.items()}
            expect(em == {'k ' + s + ' k': 'v' + s + 'v'}, 'metadata changed', repr(s), em)
            i = rqo.BoundaryFeatureInterpretation(m, uuid = iu)
            want = _norm(s) or 'untitled'
            got = _norm(i.title) or 'untitled'
            expect(got == want, 'interpretation title changed', repr(s), repr(i.title))
            expect(i.feature_uuid is not None and str(i.feature_uuid) == str(fu), 'reference changed', repr(s))
            lut = rqp.StringLookup(m, uuid = lu)
            expect(lut.str_dict == {1: 'u' + s + 'u', 3: s.lstrip() + '.'} or lut.str_dict == {1: 'u' + s + 'u', 3: s + '.'},
                   'lookup changed', repr(s), lut.str_dict)
            expect(m.uuid(obj_type = 'BoundaryFeature', title = title.strip(), title_case_sensitive = True) == fu,
                   'not found by title', repr(title))
            expect(m.uuid(obj_type = 'BoundaryFeature', extra = {'k ' + s + ' k': 'v' + s + 'v'}) == fu, 'not found by metadata',
                   repr(s))
            ctx.state((s, cycle, f.feature_name, lut.str_dict))
            ctx.step(5)


# ---- file names ---------------------------------------------------------------------------------------------------
OPENS = ('plain', 'no_suffix', 'full_load_false', 'copy_from', 'override_none', 'override_dir', 'moved')


def _names(ctx, names):
    for name in names:
        for how in OPENS:
            ctx.run((name, how), _name_case, ctx, name, how)


def _name_case(ctx, name, how):
    import resqpy.lines as rql
    d = ctx.dir()
    path = os.path.join(d, name + '.epc')
    m = rq.new_model(path, crs = True, h5 = True)
    xyz = np.array([(0.0, 0.0, 0.0), (5.0, 0.25, 1.0), (1.0 / 3.0, 5.0, 2.0)])
    p = rql.Polyline(m, set_coord = xyz, set_crs = m.crs_uuid, is_closed = True, title = 'line')
    p.write_hdf5()
    p.create_xml()
    m.store_epc()
    m.h5_release()
    rq.Stored(path).check_wellformed()
    expect(os.path.exists(path[:-4] + '.h5'), 'hdf5 file not where expected')
    if how == 'plain' or how == 'full_load_false':
        q = rq.open_model(path, full_load = how == 'plain')
    elif how == 'no_suffix':
        q = rq.open_model(path[:-4])
    elif how == 'copy_from':
        other = os.path.join(d, 'copy.epc')
        q = rq.open_model(other, copy_from = path)
        expect(rq.same(rq.h5_content(path[:-4] + '.h5')['/RESQML/%s/points_patch0' % p.uuid], xyz), 'source changed')
    elif how == 'moved':
        d2 = ctx.dir()
        shutil.move(path, os.path.join(d2, name + '.epc'))
        shutil.move(path[:-4] + '.h5', os.path.join(d2, name + '.h5'))
        path = os.path.join(d2, name + '.epc')
        q = rq.open_model(path)
    else:
        q = rq.open_model(path)
        q.default_h5_override = how[9:]
    ctx.step(2)
    if how == 'override_dir' or how == 'override_none':
        # the stored target names the file relative to the epc, so the same array is found whatever the override
        expect(os.path.basename(q.h5_file_name(override = how[9:])) == name + '.h5', 'hdf5 file name', q.h5_file_name(
            override = how[9:]))
        if how == 'override_none':
            os.chdir(d)  # with no override a relative target is taken relative to the working directory
    r = rql.Polyline(q, uuid = p.uuid)
    expect(rq.same(r.coordinates, xyz), 'coordinates after re-opening', r.coordinates)
    expect(r.isclosed and r.title == 'line', 'attributes after re-opening')
    q.h5_release()
    ctx.state((name, how))


# ---- model context ------------------------------------------------------------------------------------------------
BODIES = ('none', 'add', 'raise')
MODES = ('r', 'rw', 'c', 'read', 'read/write', 'create')


class _Boom(Exception):
    pass


def _contexts(ctx, depth):
    steps = [(m, b) for m in MODES[:3] for b in BODIES] + [(m, 'add') for m in MODES[3:]]
    for start in ('absent', 'present'):
        for seq in itertools.chain(*[itertools.product(steps, repeat = k) for k in range(1, depth + 1)]):
            ctx.run((start, seq), _context_case, ctx, start, seq)
    for bad in ('w', 'a', '', 'x', 'Read', None):
        ctx.run(('bad', bad), _bad_mode, ctx, bad)


def _bad_mode(ctx, mode):
    import resqpy.model as rqm
    path = ctx.path()
    rq.new_model(path, h5 = True).store_epc()
    before = open(path, 'rb').read()
    expect(isinstance(rq.raises(rqm.ModelContext, path, mode), ValueError), 'mode accepted', mode)
    expect(open(path, 'rb').read() == before, 'file changed')
    ctx.step()


def _disk(path):
    if not os.path.exists(path):
        return None
    return {str(u) for u in _uuids(path)}


def _uuids(path):
    return [r.attrib['uuid'] for n, r in rq.Stored(path).objects.items() if 'EpcExternal' not in n]


def _context_case(ctx, start, seq):
    import resqpy.model as rqm
    import resqpy.organize as rqo
    path = ctx.path()
    model = None  # reference: set of uuids stored in the file, or None when there is no file
    if start == 'present':
        m = rq.new_model(path, h5 = True)
        f = rqo.OrganizationFeature(m, feature_name = 'zero', organization_kind = 'earth model')
        f.create_xml()
        m.store_epc()
        m.h5_release()
        model = {str(f.uuid)}
        del m
    for n, (mode, body) in enumerate(seq):
        kind = {'r': 'read', 'rw': 'read/write', 'c': 'create'}.get(mode, mode)
        new = None
        try:
            with rqm.ModelContext(path, mode) as m:
                expect(kind == 'create' or model is not None, 'context entered although there is no file')
                have = {str(u) for u in m.uuids() if m.type_of_uuid(u, strip_obj = True) != 'EpcExternalPartReference'}
                expect(have == (set() if kind == 'create' else model), 'objects in context', have)
                if body != 'none':
                    f = rqo.OrganizationFeature(m, feature_name = f'n{n}', organization_kind = 'earth model')
                    f.create_xml()
                    new = str(f.uuid)
                if body == 'raise':
                    raise _Boom()
        except FileNotFoundError:
            expect(kind != 'create' and model is None, 'FileNotFoundError although the file exists')
            continue
        except _Boom:
            expect(body == 'raise', 'exception out of nowhere')
        else:
            expect(body != 'raise', 'the exception raised in the body was swallowed')
        if kind == 'create':
            model = None if body == 'raise' else ({new} if new else set())
        elif kind == 'read/write' and body == 'add':
            model = model | {new}
        expect(m.h5_currently_open_root is None, 'hdf5 file left open')
        expect(_disk(path) == model, 'stored objects after', mode, body, ':', _disk(path), 'expected', model)
        ctx.step()
        ctx.state((start, seq[:n + 1], None if model is None else len(model)))


# ---- storing only if modified -------------------------------------------------------------------------------------
def _modified(ctx, op):
    for section in ('organize', 'lines', 'props'):
        path = ctx.path()
        m = rq.new_model(path, h5 = True)
        z = zoo.build(m, [section])
        m.store_epc()
        m.h5_release()
        ctx._dirs.remove(os.path.dirname(path))
        for name, u in z.items():
            ctx.run((section, name), _modified_case, ctx, op, path, u)
        shutil.rmtree(os.path.dirname(path), ignore_errors = True)


def _modified_case(ctx, op, path, u):
    import resqpy.organize as rqo
    d = ctx.dir()
    new = os.path.join(d, 'n.epc')
    m = rq.open_model(new, copy_from = path)
    m.store_epc()
    m = rq.open_model(new)
    before = {str(x) for x in _uuids(new)}
    if op == 'remove':
        m.remove_part(m.part_for_uuid(u))
        want = before - {str(u)}
    elif op == 'add':
        f = rqo.OrganizationFeature(m, feature_name = 'n', organization_kind = 'earth model')
        f.create_xml()
        want = before | {str(f.uuid)}
    elif op == 'copy':
        import resqpy.olio.uuid as bu
        n = bu.new_uuid()
        m.copy_part(u, n)
        want = before | {str(n)}
    else:
        o = rq.new_model(os.path.join(d, 'o.epc'), h5 = True)
        m2 = rq.open_model(path)
        o.copy_uuid_from_other_model(m2, u)
        o.store_epc()
        o.h5_release()
        o = rq.open_model(o.epc_file)
        have = {str(x) for x in o.uuids()}
        m.remove_part(m.part_for_uuid(u))
        m.store_epc()
        m = rq.open_model(new)
        m.copy_uuid_from_other_model(o, u)
        expect(str(u) in have, 'object not copied')
        want = before
    m.store_epc(only_if_modified = True)
    m.h5_release()
    expect(set(_uuids(new)) == want, op, 'then stored if modified: objects in the file differ', set(_uuids(new)) ^ want)
    stamp = os.stat(new).st_mtime_ns
    m = rq.open_model(new)
    m.store_epc(only_if_modified = True)
    expect(os.stat(new).st_mtime_ns == stamp, 'unmodified model was stored')
    ctx.step(2)
    ctx.state((op, str(u)))


# ---- zoo ----------------------------------------------------------------------------------------------------------
def canon(e):
    text = (e.text or '').strip()
    return (rq.local(e.tag), text, tuple(sorted((rq.local(k), re.sub(r'^\{.*\}|^[a-z0-9]+:(?=[A-Za-z_])', '', v)) for k, v in e.attrib.items())),
            tuple(canon(c) for c in e if isinstance(c.tag, str)))


def snapshot(m):
    """Observable catalogue of an in-memory model."""
    out = {}
    for u in m.uuids():
        p = m.part_for_uuid(u)
        rel = frozenset(str(x) for x in m.uuids(related_uuid = u) if m.type_of_uuid(x, strip_obj = True) != 'EpcExternalPartReference')
        out[str(u)] = (p, canon(m.root_for_uuid(u)), rel, m.citation_title_for_part(p), m.type_of_part(p))
    return out


def _zoo(ctx, section, depth):
    for seq in itertools.product(('store', 'store_new_name', 'copy_from', 'lazy', 'store_quiet'), repeat = depth - 1):
        ctx.run((section,) + seq, _zoo_case, ctx, section, seq)


def _zoo_case(ctx, section, seq):
    path = ctx.path('z.epc')
    m = rq.new_model(path, h5 = True)
    z = zoo.build(m, [section])
    want = snapshot(m)
    ext = str(m.h5_uuid())
    m.store_epc()
    m.h5_release()
    expect(snapshot(m) == want, 'storing changed the model in memory')
    h5 = rq.h5_content(path[:-4] + '.h5')
    d = os.path.dirname(path)
    _compare_disk(path, want)
    for n, op in enumerate(seq):
        if op == 'copy_from':
            new = os.path.join(d, f'c{n}.epc')
            m = rq.open_model(new, copy_from = path)
            expect(os.path.exists(new), 'epc not copied')
            path = new
        elif op == 'lazy':
            # without the full load only the list of parts is promised; xml arrives on demand
            lz = rq.open_model(path, full_load = False)
            expect({str(u) for u in lz.uuids()} == set(want), 'uuids when not fully loaded')
            for u, w in want.items():
                p = lz.part_for_uuid(u)
                expect(p == w[0] and lz.type_of_part(p) == w[4], 'part when not fully loaded', p, w[0])
                expect(lz.citation_title_for_part(p) == w[3], 'title when not fully loaded', p)
                expect(canon(lz.root_for_uuid(u)) == w[1], 'xml when not fully loaded', p)
            m = rq.open_model(path)
        else:
            m = rq.open_model(path)
        got = snapshot(m)
        for u in want:
            expect(u in got, 'object lost', want[u][0])
            expect(got[u] == want[u], 'object changed when re-opened', op, want[u][0], '\n', _diff(got[u], want[u]))
        expect(set(got) == set(want), 'object appeared', set(got) - set(want))
        expect(str(m.h5_uuid()) == ext, 'hdf5 external part changed', m.h5_uuid(), ext)
        expect(os.path.basename(m.h5_file_name()) in os.listdir(d), 'hdf5 file name', m.h5_file_name())
        if op == 'store_new_name':
            # stored under another name in the same directory, with the hdf5 file following
            old = path
            path = os.path.join(d, f's{n}.epc')
            m.store_epc(path)
            m.h5_release()
            shutil.copy(old[:-4] + '.h5', path[:-4] + '.h5')
        elif op == 'store_quiet':
            m.store_epc(quiet = True)
        else:
            m.store_epc()
        _compare_disk(path, want)
        m.h5_release()
        ctx.step()
        ctx.state((section, seq[:n + 1]))
    for f in os.listdir(d):
        if f.endswith('.h5'):
            c = rq.h5_content(os.path.join(d, f))
            expect(set(c) == set(h5), 'hdf5 datasets changed')
            for k in h5:
                expect(rq.same(c[k], h5[k]) and c[k].dtype == h5[k].dtype, 'hdf5 array changed', k)
    for u, w in want.items():
        for p in [n for n in rq.Stored(path).objects if u in n]:
            for hp in rq.Stored(path).h5_paths(p):
                expect('/' + hp.lstrip('/') in h5, 'array referred to by xml is not in the hdf5 file', p, hp)


def _diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if i == 1:
                return _tree_diff(x, y)
            return f'{x} != {y}'


def _tree_diff(x, y):
    if x[:3] != y[:3]:
        return f'{x[:3]} != {y[:3]}'
    if len(x[3]) != len(y[3]):
        return f'children of {x[0]}: {[c[0] for c in x[3]]} != {[c[0] for c in y[3]]}'
    for a, b in zip(x[3], y[3]):
        if a != b:
            return _tree_diff(a, b)


def _compare_disk(path, want):
    st = rq.Stored(path)
    uu = {u: n for u, n in st.check_wellformed().items() if 'EpcExternal' not in n}
    expect({str(u) for u in uu} == set(want), 'uuids in the file', set(str(u) for u in uu) ^ set(want))
    for u, n in uu.items():
        w = want[str(u)]
        expect(n == w[0], 'part name', n, w[0])
        expect(canon(st.xml[n]) == w[1], 'stored xml differs', n, _tree_diff(canon(st.xml[n]), w[1]))
        d, f = os.path.split(n)
        rels = st.rels.get(os.path.join(d, '_rels', f + '.rels'), [])
        names = {nm: str(x) for x, nm in uu.items()}
        got = {names[t] for _, t, mode in rels if mode != 'External' and 'EpcExternal' not in t}
        expect(got == w[2], 'stored relationships differ from those in memory', n, got ^ w[2])
    with zipfile.ZipFile(path) as zf:
        expect(zf.testzip() is None, 'zip file damaged')
