"""C12: time series are chronological, and lookups, durations, merging and time-stamp arithmetic agree with the calendar.

(queries) every subset of a pool of timestamps of mixed precision x every query, in memory and re-read;  (histories) every
history of adding, inserting and extending;  (build) constructor options;  (derive) selections, lists, merges of all pairs of
series, human and geologic;  (geologic) lookups by year and by string;  (nexus) summary files of every layout."""

import datetime as dt
import itertools

from mc import rq
from mc.core import expect

ID = 'C12'
TITLE = 'time series'
BOUNDS = {
    'quick': 'all subsets of up to 4 of 10 timestamps x 19 query times, in memory and re-read; all histories of up to 4 of 10 '
             'operations; 81 constructor combinations; all pairs of 12 series merged (triples of 6); all lists of up to 3 of 7 '
             'years; summary files with up to 4 steps x 24 layouts',
    'thorough': 'subsets of up to 6; histories of 5 operations; all triples of 12 series'
}

POOL = ['1999-12-31T23:59:59Z', '2000-01-01', '2000-01-01T00:00:00Z', '2000-01-01T00:00:00.500Z', '2000-01-01T06:00:00Z',
        '2000-01-01T06:00:00.25Z', '2000-01-31', '2000-02-28T12:00:00Z', '2000-02-29', '2001-03-01T00:00:01Z']
ASK = POOL + ['1990-01-01', '2030-06-15T12:00:00Z', '2000-01-01T03:00:00Z', '2000-01-01T02:59:59Z', '2000-01-01T03:00:00.500Z',
              '2000-01-16', '2000-01-16T03:00:00Z', '2000-02-28T23:59:59Z', '2000-08-29T12:00:00.000Z']


def warm(tier):
    import resqpy.model, resqpy.time_series  # noqa


def when(s):
    if isinstance(s, dt.datetime):
        return s
    return dt.datetime.fromisoformat(s[:-1] if s.endswith('Z') else s)


def check(ts, stamps, where, ask = ()):
    """Every query on a human time series against the list of timestamps expected."""
    n = len(stamps)
    t = [when(s) for s in stamps]
    expect(ts.timeframe == 'human', where, 'time frame', ts.timeframe)
    expect([when(s) for s in ts.timestamps] == t, where, 'timestamps', ts.timestamps, 'expected', stamps)
    expect(sorted(ts.timestamps) == sorted(stamps), where, 'timestamps', ts.timestamps, 'expected', stamps)
    expect(ts.number_of_timestamps() == n, where, 'number', ts.number_of_timestamps())
    got = ts.timestamps
    expect(list(ts.iter_timestamps()) == got, where, 'iteration')
    expect(ts.last_timestamp() == (got[-1] if n else None), where, 'last', ts.last_timestamp())
    expect(ts.datetimes() == t, where, 'datetimes', ts.datetimes())
    for i in range(-n - 1, n + 2):
        e = got[i] if -n <= i < n else None
        expect(ts.timestamp(i) == e, where, 'timestamp', i, ts.timestamp(i), 'expected', e)
        ok = 0 <= i < n
        s, d = ts.duration_since_start(i), ts.days_since_start(i)
        expect((s.duration if s is not None else None) == (t[i] - t[0] if ok else None), where, 'duration since start', i, s)
        expect(d == ((t[i] - t[0]).days if ok else None), where, 'days since start', i, d)
        s, d = ts.step_duration(i), ts.step_days(i)
        ok = 1 <= i < n
        expect((s.duration if s is not None else None) == (t[i] - t[i - 1] if ok else None), where, 'step duration', i, s)
        expect(d == ((t[i] - t[i - 1]).days if ok else None), where, 'step days', i, d)
        for j in range(-1, n + 1):
            ok = 0 <= i <= j < n
            s, d = ts.duration_between_timestamps(i, j), ts.days_between_timestamps(i, j)
            expect((s.duration if s is not None else None) == (t[j] - t[i] if ok else None), where, 'duration', i, j, s)
            expect(d == ((t[j] - t[i]).days if ok else None), where, 'days', i, j, d)
            if ok:
                expect(when(s.timestamp_after_duration(got[i])) == t[j], where, 'after duration', got[i], s.duration)
                expect(when(s.timestamp_before_duration(got[j])) == t[i], where, 'before duration', got[j], s.duration)
    for a in ask:
        x = when(a)
        e = max((i for i in range(n) if t[i] <= x), default = None)
        g = ts.index_for_timestamp_not_later_than(a)
        expect(g == e, where, 'not later than', a, 'is', g, 'expected', e, 'in', got)
        e = min((i for i in range(n) if t[i] >= x), default = None)
        g = ts.index_for_timestamp_not_earlier_than(a)
        expect(g == e, where, 'not earlier than', a, 'is', g, 'expected', e, 'in', got)
        g = ts.index_for_timestamp_closest_to(a)
        if n == 0:
            expect(g is None, where, 'closest in empty series', g)
        else:
            expect(g is not None and abs(t[g] - x) == min(abs(q - x) for q in t), where, 'closest to', a, 'is', g, 'in', got)
        g = ts.index_for_timestamp(a)
        expect(g == (got.index(a) if a in got else None), where, 'index for', a, g, 'in', got)


def _queries(ctx, part, parts, size):
    import resqpy.time_series as rqts
    subs = [s for k in range(size + 1) for s in itertools.combinations(POOL, k)]
    for sub in subs[part::parts]:
        ctx.run(sub, _query_case, ctx, sub, rqts)


def _query_case(ctx, sub, rqts):
    path = ctx.path()
    m = rq.new_model(path)
    stamps = sorted(sub, key = when)
    ts = rqts.TimeSeries(m, title = 't')
    for s in stamps:
        ts.add_timestamp(s, allow_insertion = True)
    check(ts, stamps, 'in memory', ASK)
    if not stamps:
        ctx.step(len(ASK))
        return
    # inserted in the opposite order
    t2 = rqts.TimeSeries(m, first_timestamp = stamps[-1], title = 'u')
    for s in reversed(stamps[:-1]):
        t2.add_timestamp(s, allow_insertion = True)
    check(t2, stamps, 'inserted')
    ts.create_xml()
    uuid = ts.uuid
    for i in range(len(stamps)):
        node = ts.create_time_index(i)
        expect(rq.local(node.tag) == 'TimeIndex' and [c.text for c in node if rq.local(c.tag) == 'Index'] == [str(i)],
               'time index node')
        u = [e.text for e in node.iter() if rq.local(e.tag) == 'UUID']
        expect(u == [str(uuid)], 'time index refers to', u)
    expect(rq.raises(ts.create_time_index, len(stamps)) is not None, 'time index out of range accepted')
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    expect(rqts.timeframe_for_time_series_uuid(m, uuid) == 'human', 'time frame')
    for o in (rqts.TimeSeries(m, uuid = uuid), rqts.any_time_series(m, uuid)):
        expect(type(o) is rqts.TimeSeries, 'class', type(o))
        check(o, stamps, 're-read', ASK)
    expect(rq.raises(rqts.GeologicTimeSeries, m, uuid = uuid) is not None, 'human series loaded as geologic')
    rq.close(m)
    ctx.state(sub)
    ctx.step(3 * len(ASK))


OPS = [('add', '2000-01-01'), ('add', '2000-01-01T12:00:00Z'), ('add', '2000-01-02T00:00:00.5Z'), ('ins', '2000-01-01'),
       ('ins', '1999-06-01T00:00:00Z'), ('ins', '2000-01-01T12:00:00.125Z'), ('days', 0), ('days', 1), ('days', 0.5),
       ('dur', dict(days = 30, hours = 1, minutes = 2, seconds = 3))]


def _histories(ctx, first, depth):
    import resqpy.time_series as rqts
    for k in range(depth):
        for rest in itertools.product(range(len(OPS)), repeat = k):
            ctx.run((first,) + rest, _history_case, ctx, (first,) + rest, rqts)


def _history_case(ctx, h, rqts):
    ts = rqts.TimeSeries(None, title = 'h')
    stamps = []
    for x in h:
        op, arg = OPS[x]
        if op == 'add':
            if stamps and when(arg) <= when(stamps[-1]):
                expect(rq.raises(ts.add_timestamp, arg) is not None, 'out of order timestamp appended:', arg, ts.timestamps)
            else:
                ts.add_timestamp(arg)
                stamps.append(arg)
        elif op == 'ins':
            ts.add_timestamp(arg, allow_insertion = True)
            stamps = sorted(stamps + [arg], key = when)
        else:
            d = rqts.TimeDuration(days = arg) if op == 'days' else rqts.TimeDuration(**arg)
            f, a = (ts.extend_by_days, arg) if op == 'days' else (ts.extend_by_duration, d)
            delta = dt.timedelta(days = arg) if op == 'days' else dt.timedelta(**arg)
            expect(d.duration == delta, 'duration', d.duration, 'expected', delta)
            if not stamps:
                expect(rq.raises(f, a) is not None, 'empty series extended')
            else:
                f(a)
                expect(when(ts.timestamps[-1]) == when(stamps[-1]) + delta, 'extension by', arg, 'to', ts.timestamps)
                stamps.append(ts.timestamps[-1])
    check(ts, stamps, str([OPS[x] for x in h]), ASK[10:14])
    ctx.state(tuple(ts.timestamps))
    ctx.step(len(h))


def _build(ctx):
    import resqpy.time_series as rqts
    for start in ('2000-01-31', '2024-02-28T18:30:00Z'):
        for combo in itertools.product((None, 0, 2), repeat = 4):
            ctx.run((start, combo), _build_case, ctx, start, combo, rqts)
    for bad in ('2000-13-01', 'yesterday', '2000-02-30T00:00:00Z', ''):
        ctx.run(('bad', bad), _bad_case, bad, rqts)


def _build_case(ctx, start, combo, rqts):
    d, mo, q, y = combo
    ts = rqts.TimeSeries(None, first_timestamp = start, daily = d, monthly = mo, quarterly = q, yearly = y)
    t = [when(start)]
    for n, days in ((d, 1), (mo, 30), (q, 90), (y, 365)):
        for _ in range(n or 0):
            t.append(t[-1] + dt.timedelta(days = days))
    expect([when(s) for s in ts.timestamps] == t, 'timestamps', ts.timestamps, 'expected', t)
    expect(ts.timestamps[0] == start, 'first timestamp', ts.timestamps[0])
    check(ts, list(ts.timestamps), 'built')
    ctx.step(len(t))
    ctx.state(tuple(ts.timestamps))


def _bad_case(bad, rqts):
    expect(rq.raises(rqts.check_timestamp, bad) is not None, 'bad timestamp passes check:', bad)
    expect(rq.raises(rqts.TimeSeries, None, first_timestamp = bad) is not None, 'bad timestamp accepted:', bad)
    ts = rqts.TimeSeries(None, first_timestamp = '2000-01-01')
    for ins in (False, True):
        expect(rq.raises(ts.add_timestamp, bad, ins) is not None and ts.timestamps == ['2000-01-01'], 'bad added:', bad)


WHOLE = [s for s in POOL if '.' not in s]
SERIES = [('2000-01-01',), ('2000-01-01', '2000-01-01T06:00:00Z'), ('2000-01-01T00:00:00Z', '2000-01-31'),
          ('2000-01-01T06:00:00Z',), ('1999-12-31T23:59:59Z', '2000-02-29', '2001-03-01T00:00:01Z'),
          ('2000-02-28T12:00:00Z', '2000-02-29')]
YEARS = [(-300000000,), (0,), (-1,), (-251900000, -66000000, -2580000), (-66000000, 0), (-251900000,)]


def _derive(ctx, k, part, parts):
    import resqpy.time_series as rqts
    if part == 0:
        for sub in [s for n in (1, 2, 3) for s in itertools.permutations(WHOLE, n)]:
            ctx.run(('list', sub), _list_case, ctx, sub, rqts)
        for s in SERIES + YEARS:
            for n in range(len(s) + 1):
                for ix in itertools.permutations(range(len(s)), n):
                    ctx.run(('select', s, ix), _select_case, ctx, s, ix, rqts)
        for s in POOL + [w.replace('T', ' ') for w in POOL] + [when(w) for w in POOL]:
            ctx.run(('text', s), _text_case, ctx, s, rqts)
        ctx.run('none', _none_case, rqts)
    both = SERIES + YEARS
    combos = [c for n in range(1, k + 1) for c in itertools.product(range(len(both)), repeat = n)]
    for c in combos[part::parts]:
        ctx.run(('merge',) + c, _merge_case, ctx, [both[i] for i in c], rqts)


def _none_case(rqts):
    expect(rqts.cleaned_timestamp(None) is None and rqts.simplified_timestamp(None) is None, 'None')


def _list_case(ctx, sub, rqts):
    t = [when(s) for s in sub]
    if len(set(t)) < len(t):
        return
    for given in (list(sub), t):
        ts = rqts.time_series_from_list(given, title = 'l')
        expect(type(ts) is rqts.TimeSeries and ts.title == 'l', 'class and title')
        expect([when(s) for s in ts.timestamps] == sorted(t), 'series from list', given, 'is', ts.timestamps)
    ctx.step(2)


def make(m, stamps, rqts, title = None):
    if isinstance(stamps[0], int):
        return rqts.GeologicTimeSeries.from_year_list(m, list(stamps), title = title)
    ts = rqts.TimeSeries(m, first_timestamp = stamps[0], title = title)
    for s in stamps[1:]:
        ts.add_timestamp(s)
    return ts


def _select_case(ctx, s, ix, rqts):
    full = make(None, s, rqts)
    sel = rqts.selected_time_series(full, list(ix), title = 'sel')
    expect(type(sel) is type(full) and sel.title == 'sel', 'class and title')
    expect(sel.timestamps == [full.timestamps[i] for i in sorted(ix)], 'selection', ix, 'of', s, 'is', sel.timestamps)
    expect(full.timestamps == list(s), 'full series modified')
    expect(sel.timestamps is not full.timestamps, 'list shared')
    ctx.step()


def _text_case(ctx, s, rqts):
    t = when(s).replace(microsecond = 0)
    c = rqts.cleaned_timestamp(s)
    expect(when(c) == t and rqts.cleaned_timestamp(c) == c, 'cleaned', s, 'is', c)
    p = rqts.simplified_timestamp(s)
    expect(when(p) == t, 'simplified', s, 'is', p)
    if isinstance(s, str):
        for usa in (False, True):
            d = rqts.colloquial_date(s, usa_date_format = usa)
            e = f'{t.month:02}/{t.day:02}/{t.year}' if usa else f'{t.day:02}/{t.month:02}/{t.year}'
            expect(d == e, 'colloquial date', s, 'is', d)
    ctx.step(3)


def _merge_case(ctx, parts, rqts):
    m = rq.new_model(ctx.path())
    made = []
    for i, s in enumerate(parts):
        ts = make(m, s, rqts, title = f's{i}')
        ts.create_xml(reuse = False)
        made.append(ts)
    uuids = [t.uuid for t in made]
    kinds = {isinstance(s[0], int) for s in parts}
    if len(kinds) > 1:
        expect(rq.raises(rqts.merge_timeseries_from_uuid, m, uuids) is not None, 'human and geologic series merged')
        return
    for form in (uuids, iter(uuids)):
        new, nu, lst = rqts.merge_timeseries_from_uuid(m, form)
        expect(new.uuid == nu and nu not in uuids, 'uuid of merged series')
        expect([t.uuid for t in lst] == uuids, 'list of series')
        for a, b in zip(lst, made):
            expect(a.timestamps == b.timestamps and type(a) is type(b), 'series in list')
        if kinds == {True}:
            e = sorted({y for s in parts for y in s})
            expect(type(new) is rqts.GeologicTimeSeries and new.timestamps == e, 'merged', parts, 'is', new.timestamps)
        else:
            e = sorted({when(y) for s in parts for y in s})
            expect(type(new) is rqts.TimeSeries and [when(y) for y in new.timestamps] == e, 'merged', parts, new.timestamps)
            check(new, list(new.timestamps), 'merged', ASK[10:12])
    ctx.state(tuple(parts))
    ctx.step(2)


YEAR_POOL = [0, -1, 1500000, -10000000, -66000000, 251902000, -4500000000]


def _geologic(ctx):
    import resqpy.time_series as rqts
    for n in (1, 2, 3):
        for years in itertools.permutations(YEAR_POOL, n):
            ctx.run(years, _geologic_case, ctx, years, rqts)
    for y in YEAR_POOL + [999, 1000, 999999, 1000000, 9999999, 10000001, 123456789]:
        for s in (1, -1):
            ctx.run(('text', s * y), _year_text_case, s * y, rqts)


def _year_text_case(y, rqts):
    t = rqts.geologic_time_str(y)
    expect(t.endswith(' Ma'), 'text', t)
    v = float(t[:-3])
    expect(abs(-v * 1.0e6 - abs(y)) <= (1.0e6 if abs(y) >= 10000000 else 500.0), 'text of', y, 'is', t)
    expect(rqts.cleaned_timestamp(y) == t and rqts.simplified_timestamp(y) == t, 'cleaned or simplified text of', y)


def _geologic_case(ctx, years, rqts):
    path = ctx.path()
    m = rq.new_model(path)
    g = rqts.GeologicTimeSeries.from_year_list(m, list(years), title = 'g')
    g2 = rqts.time_series_from_list(list(years), parent_model = m)
    expect(type(g2) is rqts.GeologicTimeSeries, 'class of series from list of years')
    e = sorted(-abs(y) for y in years)
    g.create_xml()
    uuid = g.uuid
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    for o in (g, g2, rqts.any_time_series(m, uuid), rqts.GeologicTimeSeries(m, uuid = uuid)):
        expect(type(o) is rqts.GeologicTimeSeries and o.timeframe == 'geologic', 'class')
        expect(o.timestamps == e, 'years', o.timestamps, 'expected', e)
        expect(list(o.iter_timestamps(as_string = False)) == e and o.last_timestamp(as_string = False) == e[-1], 'iteration')
        expect(list(o.iter_timestamps()) == [rqts.geologic_time_str(y) for y in e], 'iteration as strings')
        for i, y in enumerate(e):
            expect(o.timestamp(i, as_string = False) == y and o.timestamp(i) == rqts.geologic_time_str(y), 'timestamp', i)
            expect(o.index_for_timestamp(y) == i, 'index for', y, 'is', o.index_for_timestamp(y), 'in', e)
            expect(rqts.geologic_time_str(e[o.index_for_timestamp(rqts.geologic_time_str(y))]) == rqts.geologic_time_str(y),
                   'index for string')
        expect(o.index_for_timestamp(-77) is None, 'index for absent year')
    expect(rqts.timeframe_for_time_series_uuid(m, uuid) == 'geologic', 'time frame')
    expect(rq.raises(rqts.TimeSeries, m, uuid = uuid) is not None, 'geologic series loaded as human')
    rq.close(m)
    ctx.state(tuple(e))
    ctx.step(4)


def _nexus(ctx, uom):
    import resqpy.time_series as rqts
    steps = [(0, 0.0), (1, 1.0), (2, 31.5), (3, 31.5), (5, 400.25)]
    for n in range(1, 5):
        for sub in itertools.combinations(steps, n):
            for dates in (None, 'DD/MM/YYYY', 'MM/DD/YYYY'):
                for start in (None, '1990-12-30'):
                    for rev in (False, True):
                        ctx.run((sub, dates, start, rev), _nexus_case, ctx, sub, uom, dates, start, rev, rqts)
    ctx.run('absent', _nexus_absent, ctx, rqts)


def _nexus_absent(ctx, rqts):
    expect(rqts.time_series_from_nexus_summary(ctx.path('none.sum')) is None, 'absent summary file')
    expect(rqts.time_series_from_nexus_summary(None) is None, 'no summary file')


def _nexus_case(ctx, sub, uom, dates, start, rev, rqts):
    zero = dt.date(2001, 2, 3)
    path = ctx.path('a.sum')
    with open(path, 'w') as f:
        f.write('  Nexus summary\n\n TS  CPU  NWT  TIME  DATE  QOP\n')
        f.write(f' NO.  SEC  ITNS  {uom}  ' + (dates + ' ' if dates else '') + ' STB/D\n\n')
        for step, days in (reversed(sub) if rev else sub):
            d = zero + dt.timedelta(days = int(days))
            t = days * (24.0 if uom == 'HRS' else 1.0)
            txt = '' if dates is None else (f'{d.day:02}/{d.month:02}/{d.year}'
                                            if dates[0] == 'D' else f'{d.month:02}/{d.day:02}/{d.year}')
            f.write(f' {step}  0.5  3  {t}  {txt}  100.0 200.0\n')
    ts = rqts.time_series_from_nexus_summary(path, start_date = start)
    expect(ts is not None, 'no time series')
    if dates:
        base = zero
    elif start:
        base = dt.date.fromisoformat(start)
    else:
        base = when(ts.timestamps[0]).date()  # arbitrary
    t0 = dt.datetime(base.year, base.month, base.day)
    e, last, at = [t0], 0, 0.0
    for step, days in sub:
        while last + 1 < step:
            e.append(t0 + dt.timedelta(days = at))
            last += 1
        if step > 0:
            e.append(t0 + dt.timedelta(days = days))
            last, at = step, days
    expect([when(s) for s in ts.timestamps] == e, 'series', ts.timestamps, 'expected', [str(x) for x in e])
    ctx.state(tuple(ts.timestamps))
    ctx.step()


def jobs(tier):
    thorough = tier == 'thorough'
    out = [(f'queries{i}', _queries, dict(part = i, parts = 4, size = 6 if thorough else 4)) for i in range(4)]
    out += [(f'history{i}', _histories, dict(first = i, depth = 5 if thorough else 4)) for i in range(len(OPS))]
    out += [('build', _build, {}), ('geologic', _geologic, {})]
    out += [(f'nexus-{u}', _nexus, dict(uom = u)) for u in ('DAYS', 'HRS')]
    out += [(f'derive{i}', _derive, dict(k = 3 if thorough else 2, part = i, parts = 3)) for i in range(3)]
    return out
