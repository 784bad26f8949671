"""C05: parts copied from another model arrive complete.

(zoo) every object of nearly every class is copied on its own into an empty model, a model with basics, and a model that
already holds part of what is referenced, and the result is compared with the closure of the object in the source;
(seq) every sequence of copy operations over a small source with all kinds of references and soft relations, into targets
with different residents;  (cut) cutting of references and node types over every subset; (realization) setting of
realization numbers;  (all) copying of everything, twice, with and without consolidation."""

import itertools
import os
import uuid as pyuuid

import numpy as np

from mc import rq, zoo
from mc.core import expect
from mc.props.c02 import canon

ID = 'C05'
TITLE = 'copying parts between models'
BOUNDS = {
    'quick': 'each object of 11 class families alone, in pairs with what it refers to already present, and all together, x '
             'consolidate on/off; all sequences of up to 3 copies over a source of 9 parts (two of them referring twice to '
             'the same object, soft relations, sub-directory) x 3 targets; all subsets of cut references and node types',
    'thorough': 'sequences of up to 4 copies'
}


def warm(tier):
    from mc.props import c02
    c02.warm(tier)


def refs_of(m, u):
    return set(m.uuids_as_int_referenced_by_uuid(u) or ())


def is_ext(m, ui):
    p = m.uuid_part_dict.get(ui)
    return p is None or 'EpcExternalPart' in p


def snapshot(m, h5path):
    """uuid int -> (part, type, canonical xml without the hdf5 proxy uuid, references, soft relations, arrays)."""
    h5 = rq.h5_content(h5path)
    out = {}
    for u in m.uuids():
        p = m.part_for_uuid(u)
        hard = {x for x in refs_of(m, u) if not is_ext(m, x)}
        back = {x for x in (m.uuids_as_int_referencing_uuid(u) or ()) if not is_ext(m, x)}
        soft = {x for x in (m.uuids_as_int_softly_related_to_uuid(u) or ()) if not is_ext(m, x)}
        arrays = {}
        for e in m.root_for_part(p).iter():
            if rq.local(e.tag) == 'PathInHdfFile':
                path = '/' + e.text.lstrip('/')
                arrays[path] = h5.get(path)
        out[u.int] = (p, m.type_of_part(p), strip_ext(canon(m.root_for_part(p))), hard, back, soft, arrays)
    return out


def strip_ext(c):
    if c[0] == 'HdfProxy':
        return ('HdfProxy', '', (), ())
    return c[:3] + (tuple(strip_ext(x) for x in c[3]),)


def closure(src, start):
    done, todo = set(), list(start)
    while todo:
        u = todo.pop()
        if u in done:
            continue
        done.add(u)
        todo += src[u][3]
    return done


def compare(m, h5path, src, present, what, extra = None, order_free = True):
    """The parts of the model are exactly those in present (with content as in src); extra are residents."""
    extra = extra or {}
    got = snapshot(m, h5path)
    want = set(present) | set(extra)
    expect(set(got) == want, what, ': parts present', names(got), 'expected', names({u: src.get(u) or extra[u] for u in want}))
    expect(len(m.parts()) == len(want), what, ': number of parts', len(m.parts()), len(want))
    for u in want:
        g = got[u]
        e = extra[u] if u in extra else src[u]
        expect(os.path.basename(g[0]) == os.path.basename(e[0]) and g[1] == e[1], what, ': part name or type', g[:2], e[:2])
        expect(g[2] == e[2], what, ': xml of', g[0], 'differs')
        expect(g[3] == e[3], what, ': references of', g[0])
        if u in present and u not in extra:
            back = {x for x in want if u in (src.get(x) or extra[x])[3]}
            expect(g[4] == back, what, ': referenced by, of', g[0], g[4], back)
            soft = {x for x in src[u][5] if x in present}
            expect(g[5] - set(extra) == soft - set(extra), what, ': soft relations of', g[0], len(g[5]), 'expected', len(soft))
        expect(set(g[6]) == set(e[6]), what, ': hdf5 paths of', g[0])
        for p in e[6]:
            expect(g[6][p] is not None and rq.same(g[6][p], e[6][p]) and g[6][p].dtype == e[6][p].dtype, what, ': array', p,
                   'not copied intact', g[6][p], e[6][p])
    m.check_catalogue_dictionaries(check_xml = False)


def names(d):
    return sorted(os.path.basename(v[0]) for v in d.values())


def rel_types(st):
    """Type of each stored relationship that accompanies a reference."""
    uu = {u: n for n in st.objects for u in [pyuuid.UUID(st.objects[n].attrib['uuid'])]}
    out = {}
    for n in st.objects:
        d, f = os.path.split(n)
        for a in {uu[u] for u, _, _ in st.references(n) if u in uu}:
            for x, y in ((n, a), (a, n)):
                dd, ff = os.path.split(x)
                for typ, target, mode in st.rels.get(os.path.join(dd, '_rels', ff + '.rels'), []):
                    if target == y:
                        out[x, y] = typ
    return out


def settled(m, path, src, present, what, extra = None, types = None):
    """As compare, in memory and after storing and re-opening; also package level consistency."""
    compare(m, path[:-4] + '.h5', src, present, what, extra)
    m.store_epc()
    m.h5_release()
    st = rq.Stored(path)
    st.check_wellformed()
    for n, rl in st.rels.items():
        t = [x for _, x, mode in rl]
        expect(len(set(t)) == len(t), what, ': relationship stored twice in', n)
    if types is not None:
        for k, t in rel_types(st).items():
            if k in types:
                expect(t == types[k], what, ': relationship', k, 'has type', t, 'instead of', types[k])
    q = rq.open_model(path)
    compare(q, path[:-4] + '.h5', src, present, what + ' (re-opened)', extra)
    expect(len([p for p in st.xml if 'EpcExternalPart' in p and not p.endswith('.rels')]) <= 1, 'second hdf5 external part')
    ext = {u for p, u in ((p, r.attrib['uuid']) for p, r in st.xml.items() if 'EpcExternalPart' in p and not p.endswith('.rels'))}
    for n in st.objects:
        for u, title, ct in st.references(n):
            if 'EpcExternal' in ct:
                expect(str(u) in ext, what, ': array reference to an external part that is not in the file', n)
                tr = [x for x in st.rels if x.endswith(os.path.basename(n) + '.rels')]
                expect(tr and any('EpcExternalPart' in t for _, t, _ in st.rels[tr[0]]), what,
                       ': no relationship with the hdf5 external part', n)
    return q


# ---- zoo ----------------------------------------------------------------------------------------------------------
TARGETS = ('bare', 'h5', 'crs')


def target(ctx, kind):
    path = ctx.path('t.epc')
    m = rq.new_model(path, h5 = kind != 'bare', crs = False)
    extra = set()
    if kind == 'crs':
        import resqpy.crs as rqc
        c = rqc.Crs(m, title = 'resident', x_offset = 77.0, y_offset = 3.0)
        c.create_xml()
        extra.add(c.uuid.int)
    if kind == 'bare':
        # an hdf5 file name must be known: files are compared by identity
        m.create_hdf5_ext()
    open_h5(m, path)
    full = snapshot(m, path[:-4] + '.h5')
    return m, path, {u: full[u] for u in extra}


def open_h5(m, path):
    import h5py
    if not os.path.exists(path[:-4] + '.h5'):
        with h5py.File(path[:-4] + '.h5', 'w'):
            pass


def source(ctx, section):
    path = ctx.path('s.epc')
    m = rq.new_model(path, h5 = True)
    z = zoo.build(m, [section])
    m.store_epc()
    m.h5_release()
    open_h5(m, path)
    return rq.open_model(path), path, z


def _zoo(ctx, section, consolidate):
    s = {}

    def start():
        s['m'], s['path'], s['z'] = source(ctx, section)
        s['snap'] = snapshot(s['m'], s['path'][:-4] + '.h5')
        s['types'] = rel_types(rq.Stored(s['path']))
        s['keep'] = list(ctx._dirs)
        ctx._dirs = []

    start()
    for u in sorted(s['snap']):
        for kind in TARGETS:
            ctx.run((s['snap'][u][1], sorted(s['snap']).index(u), kind), _zoo_case, ctx, s, u, kind, consolidate)
        ctx.run((s['snap'][u][1], sorted(s['snap']).index(u), 'after its references'), _after_refs, ctx, s, u, consolidate)
    for kind in TARGETS:
        ctx.run(('all', kind), _all_case, ctx, s, kind, consolidate)
    import shutil
    for d in s['keep']:
        shutil.rmtree(d, ignore_errors = True)


def unchanged(s, what):
    now = snapshot(s['m'], s['path'][:-4] + '.h5')
    for u in s['snap']:
        a, b = now[u], s['snap'][u]
        expect(a[:6] == b[:6], what, ': source model changed', b[0])
        expect(all(rq.same(a[6][p], b[6][p]) for p in b[6]), what, ': source array changed', b[0])
    expect(set(now) == set(s['snap']), what, ': parts of the source model changed')


def _zoo_case(ctx, s, u, kind, consolidate):
    m, path, extra = target(ctx, kind)
    uu = pyuuid.UUID(int = u)
    r = m.copy_uuid_from_other_model(s['m'], uu, consolidate = consolidate)
    expect(r is not None and r.int == u, 'copy returned', r)
    ctx.step()
    want = closure(s['snap'], [u])
    what = f'copy of {s["snap"][u][1]}'
    # copying again changes nothing
    r = m.copy_uuid_from_other_model(s['m'], uu, consolidate = consolidate)
    expect(r is not None and r.int == u, 'second copy returned', r)
    ctx.step()
    q = settled(m, path, s['snap'], want, what, extra, s['types'])
    unchanged(s, what)
    ctx.state((kind, consolidate, s['snap'][u][1], sorted(x[0] for x in (s['snap'][w] for w in want))))
    q.h5_release()


def _after_refs(ctx, s, u, consolidate):
    """The objects referred to are copied first, one at a time and by part name, in both orders."""
    refs = sorted(s['snap'][u][3])
    for order in (refs, refs[::-1]):
        m, path, extra = target(ctx, 'h5')
        for r in order:
            p = m.copy_part_from_other_model(s['m'], s['snap'][r][0], consolidate = consolidate)
            expect(p == s['snap'][r][0], 'copy of part returned', p)
        m.copy_part_from_other_model(s['m'], s['snap'][u][0], consolidate = consolidate)
        ctx.step(len(order) + 1)
        q = settled(m, path, s['snap'], closure(s['snap'], [u]), 'after references', extra, s['types'])
        q.h5_release()


def _all_case(ctx, s, kind, consolidate):
    m, path, extra = target(ctx, kind)
    m.copy_all_parts_from_other_model(s['m'], consolidate = consolidate)
    compare(m, path[:-4] + '.h5', s['snap'], set(s['snap']), 'copy of everything', extra)
    m.copy_all_parts_from_other_model(s['m'], consolidate = consolidate)
    q = settled(m, path, s['snap'], set(s['snap']), 'copy of everything, twice', extra, s['types'])
    unchanged(s, 'copy of everything')
    # and the copy can itself be copied
    m3, path3, extra3 = target(ctx, 'h5')
    m3.copy_all_parts_from_other_model(q, consolidate = consolidate)
    full = dict(s['snap'])
    full.update(extra)
    settled(m3, path3, full, set(s['snap']) | set(extra), 'copy of the copy').h5_release()
    ctx.step(3)
    ctx.state((kind, 'all', consolidate))


# ---- sequences ----------------------------------------------------------------------------------------------------
def small_source(ctx, subdir = False):
    """A small source with a diamond of references, repeated references, soft relations and a sub-directory."""
    import resqpy.lines as rql
    import resqpy.organize as rqo
    import resqpy.property as rqp
    import resqpy.surface as rqs
    path = ctx.path('s.epc')
    m = rq.new_model(path, h5 = True)
    c = rq.add_crs(m, title = 'c', z_inc_down = False)
    f = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = 'f')
    f.create_xml()
    i = rqo.FaultInterpretation(m, title = 'i', tectonic_boundary_feature = f, is_normal = True)
    i.create_xml()
    a = rql.Polyline(m, set_coord = np.arange(9.0).reshape((3, 3)), set_crs = c.uuid, is_closed = True, title = 'a',
                     rep_int_root = i.root)
    a.write_hdf5()
    a.create_xml()
    s = rqs.PointSet(m, points_array = np.arange(6.0).reshape((2, 3)), crs_uuid = c.uuid, title = 's')
    s.write_hdf5()
    s.create_xml()
    p = rqp.Property.from_array(m, np.array([1.5, 2.5]), 'src', 'p', s.uuid, property_kind = 'length', uom = 'm',
                                indexable_element = 'nodes')
    g = rqo.OrganizationFeature(m, feature_name = 'g', organization_kind = 'structural')
    if subdir:
        node = m.new_obj_node('OrganizationFeature')
        node.attrib['uuid'] = str(g.uuid)
        m.create_citation(root = node, title = 'g')
        m.add_part('obj_OrganizationFeature', g.uuid, node, epc_subdir = 'deep')
    else:
        g.create_xml()
    # a part with two references to the same object, and one to another
    b = rqo.FluidBoundaryFeature(m, kind = 'gas oil contact', feature_name = 'b')
    b.create_xml()
    r = rqo.RockFluidUnitFeature(m, phase = 'oil column', feature_name = 'r', top_boundary_feature = b, base_boundary_feature = b)
    r.create_xml()
    m.create_reciprocal_relationship(g.root, 'destinationObject', a.root, 'sourceObject')
    m.create_reciprocal_relationship(g.root, 'destinationObject', f.root, 'sourceObject')
    m.create_reciprocal_relationship(b.root, 'destinationObject', i.root, 'sourceObject')
    m.store_epc()
    m.h5_release()
    u = dict(c = c.uuid, f = f.uuid, i = i.uuid, a = a.uuid, s = s.uuid, p = p.uuid, g = g.uuid, b = b.uuid, r = r.uuid)
    return rq.open_model(path), path, u


def _seqs(ctx, depth, first, consolidate, subdir = False):
    s = {}
    s['m'], s['path'], s['u'] = small_source(ctx, subdir)
    s['snap'] = snapshot(s['m'], s['path'][:-4] + '.h5')
    s['types'] = rel_types(rq.Stored(s['path']))
    keep = list(ctx._dirs)
    ctx._dirs = []
    ops = sorted(s['u']) + ['*']
    for k in range(0, depth):
        for tail in itertools.product(ops, repeat = k):
            seq = (first,) + tail
            if any(x == y for x, y in zip(seq, seq[1:])):
                continue
            ctx.run(''.join(seq), _seq_case, ctx, s, seq, consolidate)
    import shutil
    for d in keep:
        shutil.rmtree(d, ignore_errors = True)


def _seq_case(ctx, s, seq, consolidate):
    m, path, extra = target(ctx, 'crs' if len(seq) == 2 else 'h5')
    present = set()
    for n, x in enumerate(seq):
        if x == '*':
            m.copy_all_parts_from_other_model(s['m'], consolidate = consolidate)
            present = set(s['snap'])
        else:
            m.copy_uuid_from_other_model(s['m'], s['u'][x], consolidate = consolidate)
            present |= closure(s['snap'], [s['u'][x].int])
        ctx.step()
        if n < len(seq) - 1:
            expect({u.int for u in m.uuids()} == present | set(extra), 'parts after', seq[:n + 1])
    q = settled(m, path, s['snap'], present, 'sequence', extra, s['types'])
    unchanged(s, 'sequence')
    ctx.state((consolidate, ''.join(seq), sorted(present)))
    q.h5_release()


# ---- cutting, realizations ----------------------------------------------------------------------------------------
def _cuts(ctx):
    s = {}
    s['m'], s['path'], s['u'] = small_source(ctx)
    keep = list(ctx._dirs)
    ctx._dirs = []
    for x in ('r', 'i', 'a', 'p'):
        others = sorted(set('cfisb') - {x})
        for k in range(3):
            for cut in itertools.combinations(others, k):
                ctx.run(('references', x, cut), _cut_refs, ctx, s, x, cut)
    types = ['DataObjectReference', 'NameValuePair', 'Citation', 'Length', 'boolean', 'PropertyKind', 'NodePatch']
    for x in ('r', 'a', 'p', 'g'):
        for k in range(3):
            for cut in itertools.combinations(types, k):
                ctx.run(('types', x, cut), _cut_types, ctx, s, x, cut)
    for x, real in itertools.product('pas', (0, 1, 7)):
        ctx.run(('realization', x, real), _realization, ctx, s, x, real)
    for n in range(4):
        ctx.run(('extra metadata', n), _cut_metadata, ctx, n)


def without(c, drop):
    """Canonical xml without any node for which drop is true."""
    return c[:3] + (tuple(without(x, drop) for x in c[3] if not drop(x)),)


def _cut_refs(ctx, s, x, cut):
    m, path, extra = target(ctx, 'h5')
    cut_uuids = [s['u'][k] for k in cut]
    cut_str = {str(u) for u in cut_uuids}

    def drop(n):
        return any(k == 'type' and v.endswith('DataObjectReference') for k, v in n[2]) and any(
            ch[0] == 'UUID' and ch[1] in cut_str for ch in n[3])

    src_root = s['m'].root_for_uuid(s['u'][x])
    m.copy_uuid_from_other_model(s['m'], s['u'][x], cut_refs_to_uuids = cut_uuids, consolidate = False)
    ctx.step()
    expect(canon(s['m'].root_for_uuid(s['u'][x])) == canon(src_root), 'source changed')
    got = strip_ext(canon(m.root_for_uuid(s['u'][x])))
    want = strip_ext(without(canon(src_root), drop))
    expect(got == want, 'xml after cutting references to', cut, ':', got, want)
    for u in m.uuids():
        r = strip_ext(canon(m.root_for_uuid(u)))
        expect(without(r, drop) == r, 'a reference to a cut object remains in', m.part_for_uuid(u))
    ctx.state(('refs', x, cut))


def _cut_types(ctx, s, x, cut):
    m, path, extra = target(ctx, 'h5')

    def drop(n):
        return any(k == 'type' and v.split(':')[-1] in cut for k, v in n[2])

    src_root = s['m'].root_for_uuid(s['u'][x])
    if any(c[0] == 'HdfProxy' for c in flat(canon(src_root))) and 'DataObjectReference' in cut:
        return  # the external part reference cannot be cut
    m.copy_uuid_from_other_model(s['m'], s['u'][x], cut_node_types = list(cut), consolidate = False)
    ctx.step()
    got = strip_ext(canon(m.root_for_uuid(s['u'][x])))
    want = strip_ext(without(canon(src_root), drop))
    expect(got == want, 'xml after cutting node types', cut, ':', got, want)
    ctx.state(('types', x, cut))


def flat(c):
    yield c
    for x in c[3]:
        yield from flat(x)


def _realization(ctx, s, x, real):
    import resqpy.property as rqp
    m, path, extra = target(ctx, 'h5')
    m.copy_uuid_from_other_model(s['m'], s['u'][x], realization = real)
    r = [c[1] for c in flat(canon(m.root_for_uuid(s['u'][x]))) if c[0] == 'RealizationIndex']
    expect(r == ([str(real)] if x == 'p' else []), 'realization index', r)
    if x == 'p':
        p = rqp.Property(m, uuid = s['u'][x])
        expect(p.realization() == real, 'realization', p.realization())
        expect(rq.same(p.array_ref(), [1.5, 2.5]), 'values')
        # copying the copy, which now has a realization, with each realization asked for
        m.store_epc()
        for again in (None, 0, 3, 12):
            for way in (0, 1):
                t = rq.new_model(ctx.path(f'again{again}{way}.epc'), h5 = True)
                if way:
                    t.copy_uuid_from_other_model(m, s['u'][x], realization = again)
                else:
                    t.copy_all_parts_from_other_model(m, realization = again)
                expect(rqp.Property(t, uuid = s['u'][x]).realization() == (real if again is None else again),
                       'realization of a copy asked for', again, 'of a property of realization', real)
    ctx.step()
    ctx.state(('real', x, real))


def _cut_metadata(ctx, n):
    import resqpy.organize as rqo
    path = ctx.path()
    m = rq.new_model(path)
    f = rqo.OrganizationFeature(m, feature_name = 'f', organization_kind = 'structural',
                                extra_metadata = {f'k{i}': f'v{i}' for i in range(n)})
    f.create_xml()
    expect(len(rqo.OrganizationFeature(m, uuid = f.uuid).extra_metadata or {}) == n, 'metadata before')
    m.remove_extra_metadata(f.uuid)
    expect(not rqo.OrganizationFeature(m, uuid = f.uuid).extra_metadata, 'extra metadata remains after removal',
           rqo.OrganizationFeature(m, uuid = f.uuid).extra_metadata)
    ctx.step()
    ctx.state(('em', n))


def jobs(tier):
    js = []
    for sec, c in itertools.product(zoo.SECTIONS, (False, True)):
        js.append((f'zoo:{sec}:{c}', _zoo, dict(section = sec, consolidate = c)))
    for first, c in itertools.product('abcfgiprs*', (False, True)):
        js.append((f'seq:{first}:{c}', _seqs, dict(depth = 4 if tier == 'thorough' else 3, first = first, consolidate = c)))
        if c:
            js.append((f'seq:{first}:subdir', _seqs, dict(depth = 3 if tier == 'thorough' else 2, first = first, consolidate = c,
                                                          subdir = True)))
    js.append(('cuts', _cuts, {}))
    return js
