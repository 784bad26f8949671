"""C09: equivalence of metadata objects, and reuse of existing equivalent objects.

(equal) for every class, every pair of choices of attributes (each differing from the base in at most one attribute), in every
state (not yet written, written, re-read, in another model): equality holds exactly when the significant attributes agree, and
is symmetric;  (reuse) every sequence of creations, with and without reuse, of objects drawn from a set of choices."""

import itertools

from mc import objs, rq
from mc.core import expect

ID = 'C09'
TITLE = 'equivalence and reuse of metadata objects'
BOUNDS = {
    'quick': '27 classes: all pairs of choices within one attribute of a base, and all pairs of such a choice and one differing from it in one attribute, x 3 states of each object; all sequences of up to 3 '
             'creations over 4 choices x reuse or not, and of 2 creations over all choices; all sequences of 4 over the two kinds '
             'of time series',
    'thorough': 'pairs of choices within two attributes of the base; creation sequences of 4'
}


def warm(tier):
    from mc.props import c10
    c10.warm(tier)


def _equal(ctx, name, changes):
    sp = objs.SPECS[name]
    cs = sp.choices(1)
    ds = cs if changes == 1 else sp.choices(2)
    for c in cs:
        ctx.run((name, diff(sp, c)), _equal_case, ctx, sp, c, ds)


def diff(sp, c):
    return {a: v for a, v in c.items() if objs.freeze(v) != objs.freeze(sp.base[a])}


def create(o, **kw):
    import resqpy.well as rqw
    return o.create_xml() if isinstance(o, rqw.MdDatum) else o.create_xml(**kw)


def _equal_case(ctx, sp, c, ds):
    m = rq.new_model(ctx.path('a.epc'))
    n = rq.new_model(ctx.path('b.epc'))
    written = sp.make(m, c)
    create(written, reuse = False)
    mine = [('unwritten', sp.make(m, c)), ('written', written), ('read', objs.load(m, sp, written.uuid))]
    if sp.name == 'MdDatum':
        mine = mine[:1] + mine[2:]
    near = [dict(c, **{a: v}) for a in sp.axes for v in sp.axes[a] if objs.freeze(v) != objs.freeze(c[a])]
    for d in ds + [d for d in near if d not in ds]:
        want = sp.equivalent(c, d)
        fresh = sp.make(m, d)
        other = sp.make(m, d)
        create(other, reuse = False)
        theirs = [('unwritten', fresh), ('read', objs.load(m, sp, other.uuid))]
        if sp.name not in ('MdDatum', 'GenericInterpretation'):
            # classes which refer by uuid are only comparable within a model
            away = sp.make(n, d)
            create(away, reuse = False)
            theirs.append(('in another model', objs.load(n, sp, away.uuid)))
        if sp.name not in ('MdDatum', 'GenericInterpretation') and (c.get('occurred') or d.get('occurred')):
            theirs.pop()
        for (w1, x), (w2, y) in itertools.product(mine, theirs):
            what = (sp.name, diff(sp, c), w1, 'and', diff(sp, d), w2)
            expect((x == y) is want, what, 'are', 'not' if want else '', 'deemed equal')
            expect((y == x) is want, what, 'are', 'not' if want else '', 'deemed equal when swapped')
            expect((x != y) is (not want), what, ': != disagrees with ==')
            expect(x.is_equivalent(y) == want, what, ': is_equivalent()')
            ctx.step()
        ctx.outcome((sp.name, want))
    for _, x in mine:
        expect(x == x and not (x == None), 'compared with itself or None')  # noqa: E711
    ctx.state((sp.name, sorted((k, repr(v)) for k, v in c.items())))


# ---- reuse --------------------------------------------------------------------------------------------------------
def picks(sp):
    """The base, an equivalent where there are insignificant attributes, and two that differ."""
    cs = sp.choices(1)
    eq = [c for c in cs[1:] if sp.equivalent(cs[0], c)]
    ne = [c for c in cs[1:] if not sp.equivalent(cs[0], c)]
    return [cs[0]] + eq[:1] + ne[:1] + ne[-1:]


def transitive(sp, cs):
    return all(sp.equivalent(a, c) or not (sp.equivalent(a, b) and sp.equivalent(b, c))
               for a, b, c in itertools.product(cs, repeat = 3))


def _reuse(ctx, name, depth):
    sp = objs.SPECS[name]
    few = picks(sp)
    for k in range(1, depth + 1):
        for seq in itertools.product(range(len(few)), repeat = k):
            for flags in itertools.product((True, False), repeat = k):
                ctx.run((name, seq, flags), _reuse_case, ctx, [sp], [few[i] for i in seq], flags)
    cs = sp.choices(1)
    for c in cs:
        ctx.run((name, diff(sp, c), 'all'), _reuse_case, ctx, [sp], [c] + cs, (False,) + (True,) * len(cs))


def _reuse_case(ctx, specs, seq, flags):
    m = rq.new_model(ctx.path())
    have = []  # (spec, choice, uuid) in order of creation
    for n, (c, reuse) in enumerate(zip(seq, flags)):
        sp = specs[n] if len(specs) > 1 else specs[0]
        o = sp.make(m, c)
        before = set(str(u) for u in m.uuids(obj_type = kind(sp, c)))
        node = create(o, reuse = reuse)
        after = set(str(u) for u in m.uuids(obj_type = kind(sp, c)))
        match = [u for s, x, u in have if s is sp and sp.equivalent(x, c) and kind(sp, c) == kind(sp, x)]
        expect(node is not None and node is m.root_for_uuid(o.uuid), 'node returned')
        expect(before <= after, 'existing parts lost')
        if reuse and match:
            expect(after == before, 'creation', n, ': an equivalent object exists, but a part was added', diff(sp, c))
            expect(str(o.uuid) in match, 'creation', n, ': reused object is not an equivalent one', diff(sp, c))
        else:
            expect(after == before | {str(o.uuid)} and str(o.uuid) not in before, 'creation', n, ': no part of its own was added',
                   diff(sp, c), 'reuse' if reuse else '')
            have.append((sp, c, str(o.uuid)))
        # writing an object which is already a part is not repeated
        if reuse:
            u = o.uuid
            expect(create(o, reuse = True) is m.root_for_uuid(u) and str(o.uuid) == str(u), 'second create_xml()')
            expect(set(str(u) for u in m.uuids(obj_type = kind(sp, c))) == after, 'second create_xml() added a part')
        ctx.step()
    m.check_catalogue_dictionaries()
    ctx.state(([s.name for s in specs], [sorted((k, repr(v)) for k, v in c.items()) for c in seq], flags))


def kind(sp, c):
    if sp.name == 'Crs':
        return 'LocalDepth3dCrs' if c['time_units'] is None else 'LocalTime3dCrs'
    return sp.type


def _mixed_times(ctx, depth):
    a, b = objs.SPECS['TimeSeries'], objs.SPECS['GeologicTimeSeries']
    items = [(a, c) for c in picks(a)[::2]] + [(b, c) for c in picks(b)[::2]]
    for k in range(2, depth + 1):
        for seq in itertools.product(range(len(items)), repeat = k):
            ctx.run(seq, _reuse_case, ctx, [items[i][0] for i in seq], [items[i][1] for i in seq], (True,) * k)


def jobs(tier):
    t = tier == 'thorough'
    js = [(f'equal:{s}', _equal, dict(name = s, changes = 2 if t and s not in ('Crs',) else 1)) for s in objs.SPECS]
    js += [(f'reuse:{s}', _reuse, dict(name = s, depth = 4 if t else 3)) for s in objs.SPECS if s not in ('MdDatum',)]
    js.append(('times', _mixed_times, dict(depth = 5 if t else 4)))
    return js
