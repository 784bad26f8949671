"""C03: catalogue queries return exactly the parts that satisfy every given criterion.

A fixed population of parts (types, titles differing by case / prefix / white space, metadata, extra metadata, relations
of all three kinds, sub-directories, creation times) is queried with the full product of filter arguments; every answer
is compared with a naive evaluation of the specification of the population."""

import itertools
import uuid as pyuuid

import numpy as np

from mc import rq
from mc.core import expect

ID = 'C03'
TITLE = 'catalogue queries are exact'
BOUNDS = {
    'quick': 'population of 11 parts; full product of 4 types x 3 uuids x (6 texts x 8 modes x 2 cases) x 3 metadata x 3 '
             'extra x 9 relation filters x 3 sub-directories x 3 input lists (in memory, after store/re-open, and part of '
             'it lazily loaded); 6 sort orders and 5 multiple-handling modes over the sub-products; grid() look-ups over '
             'all sequences of 3 grids',
    'thorough': '8 texts, 5 metadata, 5 extra, 13 relation filters, 5 sub-directories, 5 input lists'
}

N = 11
U = [pyuuid.UUID(int = (0x1234567890abcdef << 64) + (0x8000 << 48) + (977 * i * i + 31 * i) % 1009 + 4096 * 0x1000 * (i % 3))
     for i in range(N)]

# (type, title, citation created, extra metadata, subdir, {metadata})
SPEC = [
    ('OrganizationFeature', 'Alpha', '2020-01-03T00:00:00Z', {'k': 'v', 'n': '1'}, None, {'OrganizationKind': 'earth model'}),
    ('OrganizationFeature', 'alpha', '2020-01-01T00:00:00Z', {'k': 'v'}, None, {'OrganizationKind': 'structural'}),
    ('OrganizationFeature', 'Alphabet', '2020-01-05T00:00:00Z', {}, 'deep', {'OrganizationKind': 'earth model'}),
    ('TectonicBoundaryFeature', 'beta alpha', '2019-01-03T00:00:00Z', {'k': 'w'}, 'deep/er', {'TectonicBoundaryKind': 'fault'}),
    ('TectonicBoundaryFeature', 'Beta', '2020-01-02T10:00:00Z', {'k': 'v', 'K': 'v'}, None, {'TectonicBoundaryKind': 'fracture'}),
    ('BoundaryFeature', 'ALPHA', '2020-01-02T09:00:00Z', {'k': 'V'}, 'deeper', {}),
    ('BoundaryFeature', 'x.*', '2020-01-02T09:30:00Z', {}, None, {}),
    ('EarthModelInterpretation', 'Alpha', '2021-01-01T00:00:00Z', {'n': '1'}, None, {'Domain': 'depth'}),
    ('FaultInterpretation', 'beta', '2018-01-01T00:00:00Z', {}, None, {'Domain': 'depth', 'IsListric': 'false'}),
    ('BoundaryFeatureInterpretation', 'gamma', '2020-06-01T00:00:00Z', {'k': 'v'}, 'deep', {'Domain': 'depth'}),
    ('FaultInterpretation', 'Ga', '2018-01-01T00:00:01Z', {}, None, {'Domain': 'depth'}),
]
# references: source -> referenced
REFS = {7: (0,), 8: (4,), 9: (5,), 10: (3,)}
SOFT = [(1, 2), (2, 9), (6, 8)]
TYPES = [None, 'OrganizationFeature', 'obj_FaultInterpretation', 'WellboreFeature', 'BoundaryFeature']


def warm(tier):
    import resqpy.organize, resqpy.grid, resqpy.crs  # noqa
    import resqpy.model  # noqa


def _population(path):
    import resqpy.organize as rqo
    import resqpy.olio.xml_et as rqet
    m = rq.new_model(path, h5 = True)
    objs = []
    for i, (typ, title, created, em, sub, md) in enumerate(SPEC):
        kw = dict(title = title, extra_metadata = dict(em))
        if typ == 'OrganizationFeature':
            o = rqo.OrganizationFeature(m, feature_name = title, organization_kind = md['OrganizationKind'], extra_metadata = dict(em))
        elif typ == 'TectonicBoundaryFeature':
            o = rqo.TectonicBoundaryFeature(m, kind = md['TectonicBoundaryKind'], feature_name = title, extra_metadata = dict(em))
        elif typ == 'BoundaryFeature':
            o = rqo.BoundaryFeature(m, feature_name = title, extra_metadata = dict(em))
        elif typ == 'EarthModelInterpretation':
            o = rqo.EarthModelInterpretation(m, organization_feature = objs[REFS[i][0]], **kw)
        elif typ == 'FaultInterpretation':
            o = rqo.FaultInterpretation(m, tectonic_boundary_feature = objs[REFS[i][0]], is_normal = 'IsListric' not in md,
                                        is_listric = False if 'IsListric' in md else None, **kw)
        else:
            o = rqo.BoundaryFeatureInterpretation(m, boundary_feature = objs[REFS[i][0]], **kw)
        o.uuid = U[i]
        if typ.endswith('Feature'):
            root = o.create_xml(add_as_part = False)
        else:
            root = o.create_xml(add_as_part = False, add_relationships = False, reuse = False)
        rq.set_citation(root, created = created)
        m.add_part('obj_' + typ, U[i], root, epc_subdir = sub)
        objs.append(o)
    for a, bs in REFS.items():
        for b in bs:
            m.create_reciprocal_relationship(objs[a].root, 'destinationObject', objs[b].root, 'sourceObject')
    for a, b in SOFT:
        m.create_reciprocal_relationship(objs[a].root, 'mlToExternalPartProxy', objs[b].root, 'mlToExternalPartProxy')
    return m


def part_name(i):
    typ, _, _, _, sub, _ = SPEC[i]
    return (sub + '/' if sub else '') + f'obj_{typ}_{U[i]}.xml'


def related(i, mode):
    out = set()
    if mode in (None, 0):
        out |= set(REFS.get(i, ()))
    if mode in (None, 1):
        out |= {a for a, bs in REFS.items() if i in bs}
    if mode in (None, 2):
        out |= {b for a, b in SOFT if a == i} | {a for a, b in SOFT if b == i}
    return out


def t_match(title, text, mode, case):
    a, b = title.strip(), text.strip()
    if not case:
        a, b = a.upper(), b.upper()
    r = {'is': a == b, 'starts': a[:len(b)] == b, 'ends': a[len(a) - len(b):] == b if len(b) <= len(a) else False,
         'contains': a.find(b) >= 0}
    pos = {'is not': 'is', 'does not start': 'starts', 'does not end': 'ends', 'does not contain': 'contains'}
    return r[mode] if mode in r else not r[pos[mode]]


MODES = ['is', 'starts', 'ends', 'contains', 'is not', 'does not start', 'does not end', 'does not contain']


def dims(tier):
    big = tier == 'thorough'
    texts = ['alpha', 'Al', 'beta', 'a', ' Alpha ', '.*'] + (['gamma', 'zz'] if big else [])
    titles = [(None, 'is', False)] + [(t, m, c) for t in texts for m in MODES for c in (False, True)]
    metas = [{}, {'OrganizationKind': 'earth model'}, {'Domain': 'depth'}]
    extras = [{}, {'k': 'v'}, {'k': 'v', 'n': '1'}]
    rels = [(None, None)] + [(i, m) for i in (9, 2) for m in (None, 0, 1, 2)]
    subs = [None, 'deep', '/deep/er/']
    lists = [None, [2, 7, 0, 9, 4], []]
    if big:
        metas += [{'TectonicBoundaryKind': 'fault'}, {'Domain': 'depth', 'IsListric': 'false'}]
        extras += [{'K': 'v'}, {'k': 'V'}]
        rels += [(4, m) for m in (None, 0, 1, 2)]
        subs += ['/', 'de']
        lists += [[5, 3], list(reversed(range(N)))]
    uuids = [None, 0, 9]
    return titles, metas, extras, rels, subs, lists, uuids


def jobs(tier):
    titles, metas, extras, rels, subs, lists, uuids = dims(tier)
    js = []
    for stage in ('memory', 'reopened'):
        for r in range(len(rels)):
            js.append((f'product:{stage}:{r}', _product, dict(tier = tier, stage = stage, r = r)))
    for stage in ('memory', 'reopened', 'lazy'):
        js.append((f'single:{stage}', _single, dict(tier = tier, stage = stage)))
        js.append((f'helpers:{stage}', _helpers, dict(stage = stage)))
    for stage in ('memory', 'reopened', 'lazy'):
        js.append((f'values:{stage}', _values, dict(stage = stage)))
    js.append(('grids', _grids, {}))
    js.append(('iter', _iters, {}))
    return js


def _stage(ctx, stage):
    path = ctx.path()
    m = _population(path)
    if stage != 'memory':
        m.store_epc()
        m = rq.open_model(path, full_load = stage == 'reopened')
    return m


def _args(combo):
    typ, u, (t, mode, case), md, ex, (ri, rm), sub, pl = combo
    return dict(obj_type = typ,
                uuid = None if u is None else U[u],
                title = t,
                title_mode = mode,
                title_case_sensitive = case,
                metadata = md,
                extra = ex,
                related_uuid = None if ri is None else U[ri],
                related_mode = rm,
                epc_subdir = sub,
                parts_list = None if pl is None else [part_name(i) for i in pl])


def _answer(combo):
    typ, u, (t, mode, case), md, ex, (ri, rm), sub, pl = combo
    out = []
    rel = None if ri is None else related(ri, rm)
    for i in (range(N) if pl is None else pl):
        s = SPEC[i]
        if typ is not None and s[0] != (typ[4:] if typ.startswith('obj_') else typ):
            continue
        if u is not None and i != u:
            continue
        if t is not None and not t_match(s[1], t, mode, case):
            continue
        if any(s[5].get(k) != v for k, v in md.items()):
            continue
        if any(s[3].get(k) != v for k, v in ex.items()):
            continue
        if rel is not None and i not in rel:
            continue
        if sub is not None and sub.strip('/'):
            have = (s[4] or '').split('/')
            want = sub.strip('/').split('/')
            if have[:len(want)] != want:
                continue
        out.append(i)
    return out


def _product(ctx, tier, stage, r):
    titles, metas, extras, rels, subs, lists, uuids = dims(tier)

    def block(m, md, ex, sub):
        n = 0
        for typ, u, t, pl in itertools.product(TYPES[:4], uuids, titles, lists):
            combo = (typ, u, t, md, ex, rels[r], sub, pl)
            want = [part_name(i) for i in _answer(combo)]
            got = m.parts(**_args(combo))
            # the order is that of the file (or of the input list) when none is asked for
            if got != want and not (stage == 'reopened' and pl is None and sorted(got) == sorted(want)):
                expect(False, 'parts', combo, '->', got, 'expected', want)
            n += 1
            if want:
                ctx.state(combo)
        ctx.step(n)

    holder = {}

    def start():
        holder['m'] = _stage(ctx, stage)
        ctx._dirs = []

    ctx.run('(population)', start) if ctx.only_case is None else start()
    for md, ex, sub in itertools.product(metas, extras, subs):
        if 'm' not in holder:
            break
        ctx.run((md, ex, sub), block, holder['m'], md, ex, sub)


VALUES = ['1', '10', '01', '11', 'v', 'V', 'vv', 'v v', '1.0', 'None', 'True', '.*', 'a&b', '-1']
KEYS = ['n', 'N', 'nn', 'n n', 'name']


def _values(ctx, stage):
    ctx.run('all', _values_case, ctx, stage)


def _values_case(ctx, stage):
    """Look-alike values and keys: every part has one (key, value) pair; every pair and pair of pairs is asked for."""
    import resqpy.organize as rqo
    path = ctx.path()
    m = rq.new_model(path)
    spec = []
    for k, v in itertools.product(KEYS, VALUES):
        f = rqo.OrganizationFeature(m, feature_name = v, organization_kind = 'structural', extra_metadata = {k: v, 'z': k + v})
        f.create_xml(reuse = False)
        for c in f.root:
            if rq.local(c.tag) == 'OrganizationKind':
                c.text = v
        spec.append((f.uuid, k, v))
    if stage != 'memory':
        m.store_epc()
        m = rq.open_model(path, full_load = stage == 'reopened')
    for k, v in itertools.product(KEYS + ['x', 'z'], VALUES + ['', 'x', 'n1', 'n']):
        want = [u for u, kk, vv in spec if (kk == k and vv == v) or (k == 'z' and kk + vv == v)]
        got = m.uuids(extra = {k: v})
        expect(got == want, 'extra', {k: v}, 'gives', len(got), 'parts, expected', len(want))
        for k2 in ('z', 'n'):
            w2 = [u for u, kk, vv in spec if u in want and ((kk + vv == 'n' + v) if k2 == 'z' else (kk == 'n' and vv == 'n' + v))]
            if k2 != k:
                expect(m.uuids(extra = {k: v, k2: 'n' + v}) == w2, 'extra of two', k, v, k2)
        ctx.step()
        ctx.state((stage, k, v))
    for v in VALUES + ['x']:
        want = [u for u, _, vv in spec if vv == v]
        expect(m.uuids(metadata = {'OrganizationKind': v}) == want, 'metadata', v)
        expect(m.uuids(title = v, title_case_sensitive = True) == want, 'title', v)
        expect(m.uuids(title = v) == [u for u, _, vv in spec if vv.upper() == v.upper()], 'title in any case', v)
        for i in ('1', 1):
            if v == '1':
                expect(m.uuids(metadata = {'OrganizationKind': i}) == want, 'metadata as', repr(i))
        ctx.step()


SORTS = [None, 'newest', 'oldest', 'title', 'uuid', 'type']


def _single(ctx, tier, stage):
    titles, metas, extras, rels, subs, lists, uuids = dims(tier)
    holder = {}

    def start():
        holder['m'] = _stage(ctx, stage)
        ctx._dirs = []

    start()
    m = holder['m']
    rels = [(None, None)] if stage == 'lazy' else rels
    for typ, sub in itertools.product(TYPES, subs):
        ctx.run((typ, sub), _single_block, ctx, m, stage, typ, sub, titles[::3], extras, rels[::4], lists)


def _single_block(ctx, m, stage, typ, sub, titles, extras, rels, lists):
    for t, ex, rel, pl in itertools.product(titles, extras, rels, lists):
        combo = (typ, None, t, {}, ex, rel, sub, pl)
        want = _answer(combo)
        args = _args(combo)
        base = None
        for sort_by in SORTS:
            p = m.parts(sort_by = sort_by, **args)
            expect(sorted(p) == sorted(part_name(i) for i in want), 'parts', sort_by, combo, p)
            ix = [next(i for i in range(N) if part_name(i) == x) for x in p]
            if sort_by is None:
                base = ix
            elif sort_by == 'newest':
                expect(ix == sorted(ix, key = lambda i: SPEC[i][2], reverse = True), 'order', sort_by, combo, ix)
            elif sort_by == 'oldest':
                expect(ix == sorted(ix, key = lambda i: SPEC[i][2]), 'order', sort_by, combo, ix)
            elif sort_by == 'title':
                expect([SPEC[i][1] for i in ix] == sorted(SPEC[i][1] for i in ix), 'order', sort_by, combo, ix)
            elif sort_by == 'uuid':
                expect([str(U[i]) for i in ix] == sorted(str(U[i]) for i in ix), 'order', sort_by, combo, ix)
            else:
                groups = [k for k, _ in itertools.groupby(SPEC[i][0] for i in ix)]
                expect(groups == sorted(groups), 'order', sort_by, combo, groups)
            us = m.uuids(sort_by = sort_by, **args)
            ts = m.titles(sort_by = sort_by, **args)
            rs = m.roots(sort_by = sort_by, **args)
            expect([str(u) for u in us] == [str(U[i]) for i in ix], 'uuids differ from parts', sort_by, combo, us)
            expect(ts == [SPEC[i][1] for i in ix], 'titles differ from parts', sort_by, combo, ts)
            expect([r.attrib['uuid'] for r in rs] == [str(U[i]) for i in ix], 'roots differ from parts', sort_by, combo)
        for mh in ('exception', 'none', 'first', 'oldest', 'newest'):
            if not want:
                exp = None
            elif len(want) == 1:
                exp = want[0]
            else:
                exp = {'none': None, 'exception': ValueError, 'first': base[0],
                       'oldest': min(want, key = lambda i: SPEC[i][2]),
                       'newest': max(want, key = lambda i: SPEC[i][2])}[mh]
            for f, conv in ((m.part, part_name), (m.uuid, lambda i: U[i]), (m.title, lambda i: SPEC[i][1]),
                            (m.root, lambda i: str(U[i]))):
                try:
                    got = f(multiple_handling = mh, **args)
                except ValueError:
                    got = ValueError
                if f == m.root and got is not None and got is not ValueError:
                    got = got.attrib['uuid']
                e = exp if exp is None or exp is ValueError else conv(exp)
                expect(got == e if (e is None or e is ValueError) else (got is not ValueError and str(got) == str(e)),
                       f.__name__, mh, combo, '->', got, 'expected', e)
        ctx.step(len(SORTS) * 4 + 20)
        ctx.state((stage, combo))


def _helpers(ctx, stage):
    ctx.run('all', _helper_case, ctx, stage)


def _helper_case(ctx, stage):
    import collections
    m = _stage(ctx, stage)
    everything = [part_name(i) for i in range(N)]
    expect(sorted(m.parts()) == sorted(everything), 'parts()')
    expect(sorted(m.list_of_parts()) == sorted(everything), 'list_of_parts')
    allp = m.list_of_parts(only_objects = False)
    expect(sorted(p for p in allp if 'EpcExternal' not in p) == sorted(everything), 'list of all parts', allp)
    expect(m.number_of_parts() == len(allp), 'number of parts')
    cnt = collections.Counter(s[0] for s in SPEC)
    got = dict(m.parts_count_by_type())
    got.pop('EpcExternalPartReference', None)
    expect(got == dict(cnt), 'parts_count_by_type', got)
    for t in sorted(cnt) + ['WellboreFeature']:
        for pre in ('', 'obj_'):
            c = m.parts_count_by_type(pre + t)
            expect(c == ([(t, cnt[t])] if t in cnt else []), 'parts_count_by_type', pre + t, c)
            want = sorted(part_name(i) for i in range(N) if SPEC[i][0] == t)
            expect(sorted(m.parts_list_of_type(pre + t)) == want, 'parts_list_of_type', t)
            for i in range(N):
                w = [part_name(i)] if SPEC[i][0] == t else []
                expect(m.parts_list_of_type(pre + t, uuid = U[i]) == w, 'parts_list_of_type with uuid', t, i)
                if stage != 'lazy':
                    w = sorted(part_name(j) for j in related(i, None) if SPEC[j][0] == t)
                    expect(sorted(m.parts_list_related_to_uuid_of_type(U[i], pre + t)) == w, 'parts related of type', t, i)
                ctx.step()
    for i in range(N):
        p = part_name(i)
        for u in (U[i], str(U[i])):
            expect(m.part_for_uuid(u) == p, 'part for uuid', u)
            expect(m.type_of_uuid(u) == 'obj_' + SPEC[i][0] and m.type_of_uuid(u, strip_obj = True) == SPEC[i][0], 'type of uuid')
            expect(m.uuid_is_present(u), 'uuid present')
            expect(m.root_for_uuid(u).attrib['uuid'] == str(U[i]), 'root for uuid')
        expect(str(m.uuid_for_part(p)) == str(U[i]), 'uuid for part')
        expect(m.type_of_part(p) == 'obj_' + SPEC[i][0] and m.type_of_part(p, strip_obj = True) == SPEC[i][0], 'type of part')
        expect(m.title_for_part(p) == SPEC[i][1] and m.citation_title_for_part(p) == SPEC[i][1], 'title for part')
        expect(m.title_for_root(m.root_for_part(p)) == SPEC[i][1], 'title for root')
        if stage != 'lazy':
            def names(f):
                r = f(U[i])
                return set() if r is None else {pyuuid.UUID(int = x) for x in r}
            expect(names(m.uuids_as_int_related_to_uuid) - _ext(m) == {U[j] for j in related(i, None)}, 'related', i)
            expect(names(m.uuids_as_int_referenced_by_uuid) == {U[j] for j in related(i, 0)}, 'referenced by', i)
            expect(names(m.uuids_as_int_referencing_uuid) == {U[j] for j in related(i, 1)}, 'referencing', i)
            expect(names(m.uuids_as_int_softly_related_to_uuid) - _ext(m) == {U[j] for j in related(i, 2)}, 'soft', i)
            for mode in (None, 0, 1, 2):
                w = sorted(part_name(j) for j in related(i, mode))
                g = m.parts_list_filtered_by_related_uuid(everything, U[i], related_mode = mode)
                expect(sorted(g) == w, 'filtered by related', i, mode)
            g = m.parts_list_filtered_by_related_uuid(everything[:5], U[i])
            expect(sorted(g) == sorted(part_name(j) for j in related(i, None) if j < 5), 'filtered by related, sub-list', i)
        ctx.step(12)
    absent = pyuuid.UUID(int = 77)
    expect(m.part_for_uuid(absent) is None and not m.uuid_is_present(absent), 'absent uuid found')
    expect(m.root_for_uuid(absent) is None and m.type_of_uuid(absent) is None, 'absent uuid found')
    expect(m.parts(uuid = absent) == [] and m.uuid(uuid = absent) is None, 'absent uuid found')
    expect(m.parts(related_uuid = absent) == [] or stage == 'lazy', 'related to absent uuid')
    for pl in (everything, everything[::2], list(reversed(everything)), []):
        ix = [everything.index(p) for p in m.sort_parts_list_by_timestamp(pl)]
        expect(sorted(ix) == sorted(everything.index(p) for p in pl) and
               ix == sorted(ix, key = lambda i: SPEC[i][2], reverse = True), 'sorted by timestamp', ix)
    if stage != 'lazy':
        for subset in (None, range(N), (0, 7, 1), (2,), (1, 2, 9, 5)):
            nodes, edges = m.as_graph() if subset is None else m.as_graph(uuids_subset = [U[i] for i in subset])
            ix = list(range(N)) if subset is None else list(subset)
            expect(set(nodes) == {str(U[i]) for i in ix}, 'graph nodes', nodes)
            want = {frozenset((str(U[i]), str(U[j]))) for i in ix for j in related(i, None) if j in ix}
            expect(edges == want, 'graph edges', edges, want)
            for i in ix:
                expect(nodes[str(U[i])] == dict(resqml_type = SPEC[i][0], title = SPEC[i][1]), 'graph node', nodes[str(U[i])])
    ctx.state(stage)


def _ext(m):
    u = m.h5_uuid()
    return set() if u is None else {pyuuid.UUID(str(u))}


# ---- grids --------------------------------------------------------------------------------------------------------
def _grids(ctx):
    names = ('ROOT', 'Root', 'a', 'B')
    for k in (1, 2, 3):
        for seq in itertools.product(names, repeat = k):
            ctx.run(seq, _grid_case, ctx, seq)


def _grid_case(ctx, seq):
    import resqpy.grid as grr
    path = ctx.path()
    m = rq.new_model(path, crs = True, h5 = True)
    uu = []
    for n, t in enumerate(seq):
        g = grr.RegularGrid(m, extent_kji = (1, 1, n + 1), crs_uuid = m.crs_uuid, title = t, as_irregular_grid = n % 2 == 1)
        if n % 2 == 1:
            g.write_hdf5()
        g.create_xml()
        rq.set_citation(g.root, created = f'2020-01-0{9 - n}T00:00:00Z')
        uu.append(g.uuid)
    m.store_epc()
    m.h5_release()
    for query in [None] + [('title', t) for t in ('root', 'ROOT', 'A', 'b', 'zz')] + [('uuid', i) for i in range(len(seq))]:
        m = rq.open_model(path)
        if query is None:
            roots = [i for i, t in enumerate(seq) if t.upper() == 'ROOT']
            want = max(roots) if roots else (0 if len(seq) == 1 else Exception)
            call = lambda: m.grid()
        elif query[0] == 'title':
            match = [i for i, t in enumerate(seq) if t.upper() == query[1].upper()]
            want = match[0] if len(match) == 1 else Exception
            call = lambda: m.grid(title = query[1])
        else:
            want = query[1]
            call = lambda: m.grid(uuid = uu[query[1]])
        try:
            g = call()
        except (AssertionError, ValueError):
            expect(want is Exception, 'grid not found', seq, query)
            ctx.step()
            continue
        if query is not None and query[1] == 'root' and len(seq) == 1 or query and query[1] == 'ROOT' and len(seq) == 1:
            want = 0  # 'root' also stands for the main grid, which is the only one
        if want is Exception:
            # ambiguous or absent: an answer is only acceptable for an ambiguous ROOT
            expect(query is not None and query[1].upper() == 'ROOT' and len(match) > 1, 'grid found', seq, query, g.title)
            continue
        expect(str(g.uuid) == str(uu[want]), 'wrong grid', seq, query, g.title, g.uuid)
        expect(tuple(g.extent_kji) == (1, 1, want + 1), 'extent of grid', seq, query, g.extent_kji)
        expect(call() is g, 'grid object not shared', seq, query)
        expect(m.grid(uuid = uu[want]) is g, 'grid object not shared by uuid', seq, query)
        expect([str(u) for u in m.grid_list_uuid_list()] == [str(g.uuid)], 'grid list', seq, query)
        expect(m.grid_for_uuid_from_grid_list(g.uuid) is g, 'grid from list')
        for i in range(len(seq)):
            h = m.grid(uuid = uu[i])
            expect(str(h.uuid) == str(uu[i]) and tuple(h.extent_kji) == (1, 1, i + 1), 'wrong grid by uuid', seq, i)
            expect(m.grid(uuid = str(uu[i])) is h, 'grid object not shared by uuid text')
        expect(len(m.grid_list) == len(seq), 'grid list length', len(m.grid_list))
        ctx.step(4 + len(seq))
        ctx.state((seq, query))


def _iters(ctx):
    ctx.run('zoo', _iter_case, ctx)


def _iter_case(ctx):
    from mc import zoo
    import resqpy.organize as rqo
    m = rq.new_model(ctx.path('z.epc'), h5 = True)
    z = zoo.build(m)
    m.store_epc()
    m = rq.open_model(m.epc_file)
    ids = lambda it: sorted(str(o.uuid) for o in it)
    expect(ids(m.iter_crs()) == sorted(p[-40:-4] for p in m.parts() if 'Local' in p and '3dCrs' in p), 'iter_crs')
    expect(ids(m.iter_trajectories()) == [str(z['trajectory'])], 'iter_trajectories')
    expect(ids(m.iter_md_datums()) == [str(z['md_datum'])], 'iter_md_datums')
    expect(ids(m.iter_wellbore_interpretations()) == [str(z['wellbore_interp'])], 'iter_wellbore_interpretations')
    expect(ids(m.iter_grid_connection_sets()) == [str(z['gcs'])], 'iter_grid_connection_sets')
    for cls in (rqo.FaultInterpretation, rqo.HorizonInterpretation, rqo.BoundaryFeature, rqo.TectonicBoundaryFeature):
        want = sorted(str(u) for u in m.uuids() if m.type_of_uuid(u, strip_obj = True) == cls.resqml_type)
        got = list(m.iter_objs(cls))
        expect(ids(got) == want and all(type(o) is cls for o in got), 'iter_objs', cls)
        ctx.step()
    g = z['split_grid']
    st = rq.Stored(m.epc_file)
    for pl in (m.parts(), m.parts(obj_type = 'ContinuousProperty'), list(reversed(m.parts()))):
        for u in (g, z['regular_grid'], z['wellbore_frame'], z['crs']):
            want = []
            for p in pl:
                for c in st.objects[p]:
                    if rq.local(c.tag) == 'SupportingRepresentation' and str(u) in [d.text for d in c]:
                        want.append(p)
            got = m.parts_list_filtered_by_supporting_uuid(pl, u)
            expect(got == want, 'filtered by supporting uuid', got, want)
            ctx.step()
    expect(str(m.supporting_representation_for_part(m.part_for_uuid(z['log']))) == str(z['wellbore_frame']), 'supporting')
    ctx.state('iter')
