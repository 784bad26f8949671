"""C01: the catalogue of a model stays consistent under every history of part operations.

Explicit-state search over histories of add / relate / retitle / re-reference / copy / remove / save+reopen on the real
Model, against a reference model that is a dict of parts and a set of related pairs.  After every operation all queries
are compared with the reference and the model is stored and re-read by an independent reader."""

import itertools
import uuid as pyuuid

from mc import rq
from mc.core import expect

ID = 'C01'
TITLE = 'catalogue consistency under any history of part operations'
BOUNDS = {
    'quick': 'alphabets of 4 parts (two references, soft relations, one in a sub-directory) with 11-17 operations; every '
             'history up to depth 4, and every history up to depth 6 after merging equal observable states',
    'thorough': 'as quick with every history up to depth 5, and merged histories up to depth 9'
}

U = {
    'F': '0000aaaa-0000-1000-8000-000000000001',
    'G': '0000aaaa-0000-1000-8000-000000000002',
    'I': '9c3e7a10-0000-1000-8000-000000000001',
    'P': '9c3e7a11-1111-1000-8000-0000000000ff',
    'D': 'f0000000-2222-1000-8000-00000000000d',
    'R': '11111111-3333-1000-8000-00000000000a',
    'Q': '21111111-3333-1000-8000-00000000000a',
    'S': '31111111-3333-1000-8000-00000000000a',
    'copyI': 'aaaaaaaa-3333-1000-8000-00000000000a',
    'copyF': 'aaaaaaaa-3333-1000-8000-00000000000b',
}
TYPE = {
    'F': 'BoundaryFeature',
    'G': 'BoundaryFeature',
    'I': 'BoundaryFeatureInterpretation',
    'P': 'PolylineRepresentation',
    'D': 'OrganizationFeature',
    'R': 'PointSetRepresentation',
    'Q': 'PointSetRepresentation',
    'S': 'ContinuousProperty'
}
REFS = {
    'F': (),
    'G': (),
    'I': (('InterpretedFeature', 'F'),),
    'P': (('RepresentedInterpretation', 'I'),),
    'D': (),
    'R': (),
    'Q': (),
    'S': (('SupportingRepresentation', 'R'),),
}
SUBDIR = {'D': 'deep/er'}
ALPHA = {
    'basic':
        dict(objs = 'FGIP',
             ops = [('add', x) for x in 'FGIP'] + [('remove', x) for x in 'FGIP'] + [('relate', *p) for p in
                                                                                  ('FG', 'GP', 'FP', 'FI')] +
             [('retitle', x) for x in 'FI'] + [('reopen',)]),
    'support':
        dict(objs = 'RQSG',
             ops = [('add', x) for x in 'RQSG'] + [('remove', x) for x in 'RQSG'] + [('relate', 'R', 'G'),
                                                                                  ('relate', 'Q', 'G'),
                                                                                  ('resupport', 'R', 'Q'),
                                                                                  ('resupport', 'Q', 'R'), ('reopen',)]),
    'copy':
        dict(objs = 'FID',
             ops = [('add', x) for x in 'FID'] + [('remove', x) for x in ('F', 'I', 'D', 'copyI', 'copyF')] +
             [('copy', 'I', 'copyI'), ('copy', 'F', 'copyF'), ('relate', 'F', 'I'), ('retitle', 'copyF'),
              ('retitle', 'D'), ('reopen',)]),
    # removal of parts that are still referenced (the references then name an absent object)
    'dangle':
        dict(objs = 'FIPG',
             ops = [('add', x) for x in 'FIPG'] + [('cut', x) for x in 'FI'] + [('remove', x) for x in 'FIPG'] +
             [('relate', *p) for p in ('FG', 'IG', 'PG', 'FP')] + [('reopen',)]),
}


def base(x):
    return x[4:] if x.startswith('copy') else x


class Ref:
    """Reference model."""

    def __init__(self):
        self.parts = {}  # name -> [title, ((role, target), ...)]
        self.soft = set()  # pairs related in the relationships area
        self.rels = set()  # names having a relationships part

    def clone(self):
        r = Ref()
        r.parts = {k: list(v) for k, v in self.parts.items()}
        r.soft = set(self.soft)
        r.rels = set(self.rels)
        return r

    def enabled(self, op):
        k = op[0]
        p = self.parts
        if k == 'add':
            return op[1] not in p and all(t in p for _, t in REFS[op[1]]) and op[1] not in self.dangling()
        if k == 'remove':
            return op[1] in p and not any(t == op[1] for v in p.values() for _, t in v[1])
        if k == 'cut':
            return op[1] in p and any(t == op[1] for v in p.values() for _, t in v[1])
        if k == 'reopen':
            return not self.dangling()
        if k == 'relate':
            return op[1] in p and op[2] in p
        if k == 'retitle':
            return op[1] in p
        if k == 'resupport':
            return 'S' in p and p['S'][1][0][1] == op[1] and op[2] in p
        if k == 'copy':
            return op[1] in p and op[2] not in p
        return True

    def apply(self, op):
        k = op[0]
        p = self.parts
        if k == 'add':
            p[op[1]] = ['title of ' + op[1], REFS[op[1]]]
            self.rels.add(op[1])
            for _, t in REFS[op[1]]:
                self.soft.add(frozenset((op[1], t)))
        elif k in ('remove', 'cut'):
            del p[op[1]]
            self.rels.discard(op[1])
            self.soft = {s for s in self.soft if op[1] not in s}
        elif k == 'relate':
            self.soft.add(frozenset(op[1:]))
        elif k == 'retitle':
            p[op[1]][0] += '+'
        elif k == 'resupport':
            p['S'][1] = (('SupportingRepresentation', op[2]),)
        elif k == 'copy':
            p[op[2]] = [p[op[1]][0], p[op[1]][1]]

    def dangling(self):
        return {t for v in self.parts.values() for _, t in v[1] if t not in self.parts}

    def referenced(self, x):
        return {t for _, t in self.parts[x][1] if t in self.parts}

    def referencing(self, x):
        return {y for y, v in self.parts.items() if any(t == x for _, t in v[1])}

    def softly(self, x):
        s = {next(iter(p - {x})) for p in self.soft if x in p}
        return s - self.referenced(x) - self.referencing(x)


def part_name(x):
    b = TYPE[base(x)]
    sub = SUBDIR.get(x, '')
    return (sub + '/' if sub else '') + f'obj_{b}_{U[x]}.xml'


class Sys:
    """The real model being driven."""

    def __init__(self, path):
        self.path = path
        self.m = rq.new_model(path)
        self.parts_changed = False

    def apply(self, op):
        m = self.m
        k = op[0]
        if k == 'add':
            x = op[1]
            node = m.new_obj_node(TYPE[x])
            node.attrib['uuid'] = U[x]
            m.create_citation(root = node, title = 'title of ' + x)
            for role, t in REFS[x]:
                m.create_ref_node(role, 'title of ' + t, pyuuid.UUID(U[t]), content_type = 'obj_' + TYPE[t], root = node)
            m.add_part('obj_' + TYPE[x], pyuuid.UUID(U[x]), node, epc_subdir = SUBDIR.get(x))
            for _, t in REFS[x]:
                m.create_reciprocal_relationship(node, 'destinationObject', m.root_for_uuid(U[t]), 'sourceObject')
        elif k in ('remove', 'cut'):
            m.remove_part(m.part_for_uuid(U[op[1]]))
        elif k == 'relate':
            m.create_reciprocal_relationship_uuids(pyuuid.UUID(U[op[1]]), 'destinationObject', pyuuid.UUID(U[op[2]]),
                                                   'sourceObject')
        elif k == 'retitle':
            import copy
            part = m.part_for_uuid(U[op[1]])
            root = copy.deepcopy(m.root_for_part(part))
            rq.set_citation(root, title = m.title_for_part(part) + '+')
            m.patch_root_for_part(part, root)
        elif k == 'resupport':
            ok = m.change_uuid_in_supporting_representation_reference(m.root_for_uuid(U['S']), pyuuid.UUID(U[op[1]]),
                                                                      pyuuid.UUID(U[op[2]]))
            expect(ok, 'supporting representation not found')
        elif k == 'copy':
            name = m.copy_part(pyuuid.UUID(U[op[1]]), pyuuid.UUID(U[op[2]]))
            expect(name == part_name(op[2]), 'copy_part returned', name)
        elif k == 'reopen':
            # additions and removals are noticed as modifications; other changes are not promised to be
            m.store_epc(self.path, quiet = True, only_if_modified = self.parts_changed)
            self.m = rq.open_model(self.path)
            expect(not self.m.modified, 'model modified by loading it')
            self.parts_changed = False
        if k in ('add', 'remove', 'cut', 'copy'):
            self.parts_changed = True


def check(sys, ref, soft_exact, store = True):
    m = sys.m
    names = set(ref.parts)
    want = {part_name(x) for x in names}
    got = m.parts()
    expect(len(got) == len(set(got)), 'parts() lists a part twice', got)
    expect(set(got) == want, 'parts() gives', sorted(got), 'expected', sorted(want))
    expect(set(m.list_of_parts()) == want, 'list_of_parts()', m.list_of_parts())
    expect(m.number_of_parts() == len(m.list_of_parts(only_objects = False)), 'number_of_parts()')
    by_int = {pyuuid.UUID(u).int: x for x, u in U.items()}
    expect({u.int for u in m.uuids()} == {pyuuid.UUID(U[x]).int for x in names}, 'uuids()', m.uuids())
    counts = {}
    for x in names:
        counts[TYPE[base(x)]] = counts.get(TYPE[base(x)], 0) + 1
    expect(dict(m.parts_count_by_type()) == counts, 'parts_count_by_type()', m.parts_count_by_type(), counts)
    for x, u in U.items():
        if base(x) not in TYPE:
            continue
        uu = pyuuid.UUID(u)
        present = x in names
        expect(m.uuid_is_present(uu) == present, 'uuid_is_present', x)
        expect(m.part_for_uuid(uu) == (part_name(x) if present else None), 'part_for_uuid', x, m.part_for_uuid(uu))
        expect(m.part(uuid = u) == (part_name(x) if present else None), 'part(uuid)', x)
        if not present:
            rel = m.uuids_as_int_related_to_uuid(uu)
            expect(not rel, 'absent part', x, 'still has relatives', rel)
            expect(m.parts(related_uuid = uu) == [], 'absent part still has related parts', x)
            continue
        expect(m.type_of_uuid(uu) == 'obj_' + TYPE[base(x)], 'type_of_uuid', x)
        expect(m.type_of_part(part_name(x), strip_obj = True) == TYPE[base(x)], 'type_of_part', x)
        expect(m.title(uuid = uu) == ref.parts[x][0], 'title', x, m.title(uuid = uu), ref.parts[x][0])
        root = m.root_for_uuid(uu)
        expect(root is not None and root.attrib['uuid'] == u, 'root uuid', x)
        expect(m.uuid_for_part(part_name(x)) == uu, 'uuid_for_part', x)
        sets = [m.uuids_as_int_referenced_by_uuid(uu), m.uuids_as_int_referencing_uuid(uu)]
        exp = [ref.referenced(x), ref.referencing(x)]
        if soft_exact:
            sets.append(m.uuids_as_int_softly_related_to_uuid(uu))
            exp.append(ref.softly(x))
        for i, (s, e) in enumerate(zip(sets, exp)):
            s = {by_int.get(v, v) for v in (s or set())}
            expect(s == e, 'relation', ('references', 'referenced by', 'softly related')[i], 'of', x, 'is', sorted(map(str, s)),
                   'expected', sorted(e))
            ps = set(m.parts(related_uuid = u, related_mode = i))
            expect(ps == {part_name(t) for t in e}, 'parts(related_uuid, related_mode', i, ') of', x, 'is', sorted(ps))
        if soft_exact:
            e = set().union(*exp)
            expect(set(m.parts(related_uuid = uu)) == {part_name(t) for t in e}, 'parts(related_uuid) of', x)
    m.check_catalogue_dictionaries(referred_parts_must_be_present = not ref.dangling(), check_xml = not ref.dangling())
    if not store:
        return
    path = sys.path[:-4] + '_s.epc'
    was = m.modified
    m.store_epc(path, quiet = True)
    m.modified = was
    m.set_epc_file_and_directory(sys.path)
    st = rq.Stored(path)
    st.check_wellformed(dangling_ok = bool(ref.dangling()))
    expect(set(st.objects) == want, 'stored parts', sorted(st.objects), 'expected', sorted(want))
    for x in names:
        n = part_name(x)
        expect(st.title(n) == ref.parts[x][0], 'stored title', st.title(n), ref.parts[x][0])
        refs = sorted(str(u) for u, _, _ in st.references(n))
        expect(refs == sorted(U[t] for _, t in ref.parts[x][1]), 'stored references of', x, refs)
        rn = n.rpartition('/')[0]
        rn = (rn + '/' if rn else '') + '_rels/' + n.rpartition('/')[2] + '.rels'
        if rn in st.rels:
            targets = [t for _, t, _ in st.rels[rn]]
            expect(len(set(targets)) == len(targets), 'relationship stored twice for', x, targets)
            if soft_exact:
                e = {part_name(next(iter(p - {x}))) for p in ref.soft if x in p}
                expect(set(targets) == e, 'stored relationships of', x, sorted(targets), 'expected', sorted(e))
        else:
            expect(not any(x in p for p in ref.soft), 'relationships not stored for', x)
    return st


def canon(sys, ref, st):
    m = sys.m
    rel = {}
    for x in ref.parts:
        u = pyuuid.UUID(U[x])
        rel[x] = [
            sorted(m.uuids_as_int_referenced_by_uuid(u) or ()),
            sorted(m.uuids_as_int_referencing_uuid(u) or ()),
            sorted(m.uuids_as_int_softly_related_to_uuid(u) or ())
        ]
    return (sorted(ref.parts.items()), sorted(map(sorted, ref.soft)), rel, sorted(st.names), st.rels,
            sorted(st.overrides), m.parts())


def play(ctx, hist, soft_exact, all_steps = False):
    """Runs a history from scratch; checks after the last operation (or after each one)."""
    s = Sys(ctx.path())
    r = Ref()
    st = None
    for i, op in enumerate(hist):
        s.apply(op)
        r.apply(op)
        if all_steps or i == len(hist) - 1:
            st = check(s, r, soft_exact)
            ctx.step()
    return s, r, st


def titles_limited(hist, op):
    return op[0] != 'retitle' or sum(1 for h in hist if h == op) < 2


def explore(ctx, alpha, prefix, depth, merge):
    ops = ALPHA[alpha]['ops']
    soft = alpha in ('basic', 'dangle')
    ref0 = Ref()
    for op in prefix:
        if not ref0.enabled(op):
            return
        ref0.apply(op)
    frontier = [tuple(prefix)]
    seen = set()
    while frontier and not ctx.full():
        nxt = []
        for hist in frontier:
            if ctx.full():
                break
            res = {}

            def case():
                s, r, st = play(ctx, hist, soft) if hist else (None, None, None)
                if hist:
                    c = canon(s, r, st)
                    res['new'] = ctx.state((alpha, c))
                    ctx.outcome(sorted(st.names))

            ctx.run(f'{alpha}:' + ' '.join('-'.join(o) for o in hist), case)
            if len(hist) >= depth or (merge and not res.get('new', True)):
                continue
            r = Ref()
            for op in hist:
                r.apply(op)
            for op in ops:
                if r.enabled(op) and titles_limited(hist, op) and not (op == ('reopen',) and hist and hist[-1] == op):
                    nxt.append(hist + (op,))
        frontier = nxt


def reachable(alpha, n):
    """All enabled histories of length n (reference model only): used to split the work."""
    out = [()]
    for _ in range(n):
        nxt = []
        for h in out:
            r = Ref()
            for op in h:
                r.apply(op)
            nxt += [h + (op,) for op in ALPHA[alpha]['ops'] if r.enabled(op) and op[0] != 'reopen' or op[0] == 'reopen' and h]
        out = nxt
    return out


def jobs(tier):
    deep = tier == 'thorough'
    js = []
    for alpha in ALPHA:
        for i, h in enumerate(reachable(alpha, 2)):
            js.append((f'all:{alpha}:{i}', explore, dict(alpha = alpha, prefix = h, depth = 6 if deep else 5, merge = False)))
        # deeper searches from starting states that already hold a full set of parts
        full = tuple(('add', x) for x in ALPHA[alpha]['objs'])
        for i, op in enumerate(ALPHA[alpha]['ops']):
            js.append((f'deep:{alpha}:{i}', explore,
                       dict(alpha = alpha, prefix = full + (op,), depth = len(full) + (9 if deep else 5), merge = True)))
    return js


def warm(tier):
    import resqpy.model  # noqa
