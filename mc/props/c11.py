"""C11: unit conversion follows the units table, for all units.

(pairs) every ordered pair of units of the same dimension, for scalars and arrays, in place and not, against a direct
evaluation of the conversion formula; round trips and composition through a third unit;  (aliases) every spelling;
(quantities) which units are accepted for which quantity;  (trans) transmissibility units;  (nexus) unit systems."""

import itertools
import json
import warnings

import numpy as np

from mc import rq
from mc.core import expect

ID = 'C11'
TITLE = 'units of measure'
BOUNDS = {
    'quick': 'all ordered pairs of units with the same dimension (49 916) x scalar, integer, array, nan; each pair of base units; '
             'all units x all quantities; all aliases in 4 spellings; 1296 pairs of transmissibility units; all unit systems; all '
             'incompatible pairs with a sample unit of each dimension',
    'thorough': 'in addition all incompatible pairs of units (2 million)'
}


def warm(tier):
    import resqpy.weights_and_measures  # noqa
    import resqpy.olio.exceptions  # noqa


def table():
    import os
    import resqpy
    with open(os.path.join(os.path.dirname(resqpy.__file__), 'olio', 'data', 'properties.json')) as f:
        return json.load(f)


def coeff(units, u):
    d = units[u]
    if 'baseUnit' not in d or 'A' not in d:
        return u, d['dimension'], (0.0, 1.0, 1.0, 0.0)
    return d['baseUnit'], d['dimension'], (d['A'], d['B'], d['C'], d['D'])


def oracle(x, c1, c2):
    a, b, c, d = c1
    y = (a + b * x) / (c + d * x)
    a, b, c, d = c2
    return (a - c * y) / (d * y - b)


def close(a, b):
    return np.allclose(a, b, rtol = 1.0e-9, atol = 1.0e-300, equal_nan = True)


def _pairs(ctx, part, parts):
    units = table()['units']
    dims = {}
    for u in units:
        dims.setdefault(units[u]['dimension'], []).append(u)
    todo = sorted(units)
    for u in todo[part::parts]:
        ctx.run(u, _pair_case, ctx, units, u, dims[units[u]['dimension']])


def _pair_case(ctx, units, u, others):
    import resqpy.weights_and_measures as wam
    expect(wam.rq_uom(u) == u, 'unit is not itself:', u, wam.rq_uom(u))
    b1, d1, c1 = coeff(units, u)
    expect(wam.get_conversion_factors(u) == (b1, d1, c1), 'conversion factors', wam.get_conversion_factors(u))
    xs = np.array([[0.0, 1.0, -3.5], [1.0e6, np.nan, 1.0e-6]])
    for v in others:
        b2, d2, c2 = coeff(units, v)
        with warnings.catch_warnings(record = True) as w:
            warnings.simplefilter('always')
            e = xs if u == v else oracle(xs, c1, c2)
            given = xs.copy()
            g = wam.convert(given, u, v)
            expect(rq.same(given, xs), 'argument modified by conversion not in place')
            expect(close(g, e), 'conversion', u, v, g, e)
            expect(bool(w) == (b1 != b2), 'warning for differing base units:', u, v, [str(x.message)[:40] for x in w])
            for x in (2.5, 3, 0):
                g1 = wam.convert(x, u, v)
                expect(close(g1, x if u == v else oracle(float(x), c1, c2)), 'conversion of', x, u, v, g1)
            back = wam.convert(wam.convert(7.25, u, v), v, u)
            expect(np.isclose(back, 7.25, rtol = 1.0e-9), 'round trip', u, v, back)
            inplace = xs.copy()
            simple = u == v or all(q == 0 for q in (c1[0], c1[3], c2[0], c2[3]))
            if simple:
                r = wam.convert(inplace, u, v, inplace = True)
                expect(r is inplace and close(inplace, e), 'conversion in place', u, v, inplace, e)
                part = xs.copy()
                wam.convert(part[:, 1], u, v, inplace = True)
                expect(close(part[:, 1], e[:, 1]) and rq.same(part[:, [0, 2]], xs[:, [0, 2]]), 'in place, view of array', u, v)
                expect(close(wam.convert(2.5, u, v, inplace = True), 2.5 if u == v else oracle(2.5, c1, c2)), 'scalar in place')
            else:
                err = rq.raises(wam.convert, inplace, u, v, inplace = True)
                expect((err is not None and rq.same(inplace, xs)) or (err is None and close(inplace, e)), 'offset in place')
        ctx.step(6)
    ctx.state((u, b1))


def _mixed(ctx, part, parts, all_pairs):
    units = table()['units']
    reps = {}
    for u in sorted(units):
        reps.setdefault(units[u]['dimension'], u)
    todo = sorted(units)
    for u in todo[part::parts]:
        ctx.run(u, _mixed_case, ctx, units, u, todo if all_pairs else sorted(reps.values()))


def _mixed_case(ctx, units, u, others):
    import resqpy.weights_and_measures as wam
    from resqpy.olio.exceptions import IncompatibleUnitsError
    for v in others:
        if units[u]['dimension'] == units[v]['dimension'] or coeff(units, u)[0] == coeff(units, v)[0]:
            continue
        a = np.ones(2)
        e = rq.raises(wam.convert, a, u, v, inplace = True)
        expect(isinstance(e, IncompatibleUnitsError) and (a == 1.0).all(), 'incompatible units converted:', u, v, e, a)
        ctx.step()


ANCHORS = {  # value of one unit in another, from their definitions
    ('ft', 'm'): 0.3048, ('in', 'm'): 0.0254, ('ft[US]', 'm'): 1200.0 / 3937.0, ('mi', 'm'): 1609.344, ('km', 'm'): 1000.0,
    ('cm', 'm'): 0.01, ('bbl', 'm3'): 0.158987294928, ('ft3', 'm3'): 0.028316846592, ('1000 ft3', 'ft3'): 1000.0,
    ('bbl', 'gal[US]'): 42.0, ('psi', 'kPa'): 6.894757293168361, ('bar', 'kPa'): 100.0, ('atm', 'Pa'): 101325.0,
    ('kgf/cm2', 'kPa'): 98.0665, ('d', 's'): 86400.0, ('h', 'min'): 60.0, ('ms', 's'): 0.001, ('a', 'd'): 365.25,
    ('wk', 'd'): 7.0, ('lbm', 'kg'): 0.45359237, ('g/cm3', 'kg/m3'): 1000.0, ('cP', 'Pa.s'): 0.001, ('mD', 'D'): 0.001,
    ('D', 'm2'): 9.869233e-13, ('dega', 'rad'): np.pi / 180.0, ('rev', 'dega'): 360.0, ('%', 'Euc'): 0.01,
    ('bbl/d', 'm3/d'): 0.158987294928, ('1000 bbl', 'bbl'): 1000.0, ('L', 'm3'): 0.001, ('cm3', 'm3'): 1.0e-6, ('t', 'kg'): 1000.0,
    ('mS', 'S'): 0.001, ('kJ', 'J'): 1000.0, ('Btu[IT]', 'J'): 1055.05585262, ('1E6 bbl', 'bbl'): 1.0e6, ('us', 's'): 1.0e-6
}


def _coherence(ctx):
    units = table()['units']
    for (u, v), f in ANCHORS.items():
        ctx.run((u, v), _anchor_case, u, v, f)
    for c, f, k in ((0.0, 32.0, 273.15), (100.0, 212.0, 373.15), (-40.0, -40.0, 233.15)):
        ctx.run(('temperature', c), _temperature_case, c, f, k)
    for u in sorted(units):
        ctx.run(('compound', u), _compound_case, ctx, units, u)


def _anchor_case(u, v, f):
    import resqpy.weights_and_measures as wam
    expect(np.isclose(wam.convert(1.0, u, v), f, rtol = 1.0e-6), 'one', u, 'is', wam.convert(1.0, u, v), v, 'expected', f)
    expect(np.isclose(wam.convert(f, v, u), 1.0, rtol = 1.0e-6), f, v, 'in', u)


def _temperature_case(c, f, k):
    import resqpy.weights_and_measures as wam
    t = {'degC': c, 'degF': f, 'K': k}
    for u, v in itertools.permutations(t, 2):
        expect(abs(wam.convert(t[u], u, v) - t[v]) < 1.0e-6, t[u], u, 'is', wam.convert(t[u], u, v), v)


def factor(u):
    import resqpy.weights_and_measures as wam
    _, _, (a, b, c, d) = wam.get_conversion_factors(u)
    return None if a or d else b / c


def composed(units, t):
    """Factor of a unit text from the factors of its components, or None when it cannot be decomposed."""
    if t.startswith('(') and t.endswith(')'):
        t = t[1:-1]
    p = 1.0
    for w in t.split('.'):
        if w.startswith('1E') and ' ' in w or w.startswith('1000 '):
            n, w = w.split(' ', 1)
            p *= float(n)
        if w[-1:].isdigit() and w[:-1] in units:
            f = factor(w[:-1])
            p = None if f is None else p * f**int(w[-1])
        else:
            f = factor(w) if w in units else None
            p = None if f is None else p * f
        if p is None:
            return None
    return p


def _compound_case(ctx, units, u):
    f = factor(u)
    if f is None or u[0].isdigit() and not u.startswith(('1E', '1000 ', '1/')) or u.startswith(('1/2 ', '1/3', '1/16', '1/6')):
        return
    if '/' in u:
        a, b = u.split('/', 1)
        a, b = 1.0 if a == '1' else composed(units, a), composed(units, b)
        e = None if a is None or b is None else a / b
    elif '.' in u or ' ' in u or u[-1].isdigit():
        e = composed(units, u)
    else:
        e = None
    if e is not None:
        expect(abs(f / e - 1.0) < 1.0e-6, 'unit', u, 'has factor', f, 'its components give', e)
        ctx.step()


def _aliases(ctx):
    import resqpy.weights_and_measures as wam
    from resqpy.olio.exceptions import InvalidUnitError
    units = table()['units']
    known = dict(metres = 'm', FEET = 'ft', Foot = 'ft', meter = 'm', day = 'd', hours = 'h', hr = 'h', secs = 's', msec = 'ms',
                 percent = '%', stb = 'bbl', mstb = '1000 bbl', mmscf = '1E6 ft3', scf = 'ft3', sm3 = 'm3', psia = 'psi',
                 cc = 'cm3', litres = 'L', gAPI = 'gAPI', GAPI = 'gAPI', grams = 'g', lbs = 'lbm', ftUS = 'ft[US]', year = 'a')
    known.update({'g/cc': 'g/cm3', 'stb/day': 'bbl/d', 'sm3/day': 'm3/d', 'v/v': 'm3/m3', 'm/sec': 'm/s', '(m)': 'm',
                  'scf/stb': 'ft3/bbl', 'mscf/d': '1000 ft3/d', 'degrees C': 'degC', ' m ': 'm'})
    for a, e in known.items():
        ctx.run(('known', a), lambda a = a, e = e: expect(wam.rq_uom(a) == e, a, 'is', wam.rq_uom(a), 'expected', e))
    for uom, al in sorted(wam.UOM_ALIASES.items()):
        for a in sorted(al):
            for s in sorted({a, a.upper(), a.capitalize(), ' ' + a + ' '}):
                ctx.run((uom, s), _alias_case, ctx, units, uom, s)
    for bad in ('', None, 'furlongs per fortnight', 'foo/bar', 'm/', '/', '()', '((m))x', 'm//s'):
        ctx.run(('bad', bad), lambda bad = bad: expect(isinstance(rq.raises(wam.rq_uom, bad), InvalidUnitError), 'accepted', bad))
    ctx.run('list', lambda: expect(wam.rq_uom_list(['metres', 'FT', 'd']) == ['m', 'ft', 'd'], 'list of units'))


def _alias_case(ctx, units, uom, s):
    import resqpy.weights_and_measures as wam
    e = s.strip() if s.strip() in units else uom
    expect(wam.rq_uom(s) == e, 'alias', repr(s), 'is', wam.rq_uom(s), 'expected', e)
    ctx.step()


def _quantities(ctx):
    d = table()
    for q in sorted(d['quantities']):
        ctx.run(q, _quantity_case, ctx, d, q)
    ctx.run('all', _all_case, d)


def _all_case(d):
    import resqpy.weights_and_measures as wam
    expect(wam.valid_uoms() == set(d['units']), 'valid units')
    expect(wam.valid_quantities() == set(d['quantities']), 'valid quantities')
    expect(wam.valid_property_kinds() == set(d['property_kinds']), 'valid property kinds')
    expect(wam.valid_uoms(return_attributes = True) == d['units'], 'attributes of units')
    expect(wam.valid_quantities(return_attributes = True) == d['quantities'], 'attributes of quantities')
    for a, q, f in (('length', 'm', wam.rq_length_unit), ('time', 's', wam.rq_time_unit)):
        expect(f(q) == q and rq.raises(f, 'psi') is not None, 'unit of', a)


def _quantity_case(ctx, d, q):
    import resqpy.weights_and_measures as wam
    members = set(d['quantities'][q]['members']) & set(d['units'])
    expect(wam.valid_uoms(quantity = q) == members, 'units of', q)
    expect(set(wam.valid_uoms(quantity = q, return_attributes = True)) == members, 'units of', q)
    for u in d['units']:
        err = rq.raises(wam.rq_uom, u, q)
        expect((err is None) == (u in members), 'unit', u, 'for', q, err)
    ctx.step(len(d['units']))
    m = sorted(members)
    if m:
        for u in (set(d['units']) - members and [sorted(set(d['units']) - members)[0]]):
            expect(rq.raises(wam.convert, 1.0, m[0], u, quantity = q) is not None, 'conversion to', u, 'for', q)
            expect(rq.raises(wam.convert, 1.0, u, m[0], quantity = q) is not None, 'conversion from', u, 'for', q)
    named = {'length': wam.convert_lengths, 'pressure': wam.convert_pressures, 'volume': wam.convert_volumes,
             'volume per time': wam.convert_flow_rates, 'time': wam.convert_times}.get(q)
    if named is None:
        return
    for u, v in itertools.product(m, m):
        _, _, c1 = coeff(d['units'], u)
        _, _, c2 = coeff(d['units'], v)
        a = np.array([1.0, 2.5])
        e = a.copy() if u == v else oracle(a, c1, c2)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = named(a, u, v)
            expect(r is a and close(a, e), q, u, v, a, e)
            expect(close(named(1.0, u, v), e[0]), q, 'scalar', u, v)
            if q == 'time':
                a = np.array([1.0, 2.5])
                wam.convert_times(a, v, u, invert = True)
                expect(close(a, e), 'time inverted', u, v, a, e)
        ctx.step(2)
    expect(rq.raises(named, 1.0, 'mD', m[0]) is not None and rq.raises(named, 1.0, m[0], 'mD') is not None, 'unit mD for', q)


def _trans(ctx):
    vols, viscs, press, times = ('m3', 'bbl', 'ft3'), ('cP', 'Pa.s'), ('kPa', 'bar', 'psi'), ('d', 's')
    units = [f'{a}.{b}/({c}.{d})' for a in vols for b in viscs[:1] for c in press for d in times]
    for u in units:
        for v in units:
            ctx.run((u, v), _trans_case, ctx, u, v)
    for bad in ('m3.cP', 'm3/(kPa.d)', 'm3.cP/kPa.d', 'rb.cP/(psi.d)', 'm3.m/(kPa.d)', 'm3.cP/(m.d)', 'm3.cP/(kPa.m)'):
        ctx.run(bad, _trans_bad, bad)
    for u, v in itertools.permutations([f'm3.{b}/(kPa.d)' for b in ('cP', 'mPa.s', 'P')], 2):
        ctx.run((u, v), _trans_case, ctx, u, v)


def _trans_bad(bad):
    import resqpy.weights_and_measures as wam
    expect(rq.raises(wam.convert_transmissibilities, 1.0, bad, 'm3.cP/(kPa.d)') is not None, 'accepted', bad)


def _trans_case(ctx, u, v):
    import resqpy.weights_and_measures as wam
    units = table()['units']

    def split(s):
        top, bottom = s.split('/(')
        a, b = top.split('.', 1)
        c, d = bottom[:-1].rsplit('.', 1)
        return a, b, c, d

    f = 1.0
    for i, (p, q) in enumerate(zip(split(u), split(v))):
        g = oracle(1.0, coeff(units, p)[2], coeff(units, q)[2])
        f = f * g if i < 2 else f / g
    x = np.array([[1.0, 0.0], [-2.5, np.nan]])
    a = x.copy()
    r = wam.convert_transmissibilities(a, u, v)
    expect(r is a and close(a, x * f), 'transmissibility', u, v, a, x * f)
    expect(close(wam.convert_transmissibilities(2.0, u, v), 2.0 * f), 'scalar transmissibility', u, v)
    ctx.step(2)


def _nexus(ctx):
    for system in ('METRIC', 'METKG/CM2', 'METBAR', 'LAB', 'ENGLISH'):
        for q in ('length', 'area', 'volume', 'volume per volume', 'permeability rock', 'rock permeability', 'time',
                  'thermodynamic temperature', 'mass per volume', 'pressure', 'volume per time'):
            ctx.run((system, q), _nexus_case, ctx, system, q)


def _nexus_case(ctx, system, q):
    import resqpy.weights_and_measures as wam
    d = table()
    length = {'LAB': 'cm', 'ENGLISH': 'ft'}.get(system, 'm')
    e = {
        'length': length, 'area': length + '2', 'volume': length + '3', 'volume per volume': f'{length}3/{length}3',
        'rock permeability': 'mD', 'permeability rock': 'mD', 'time': 'h' if system == 'LAB' else 'd',
        'thermodynamic temperature': 'degF' if system == 'ENGLISH' else 'degC',
        'mass per volume': {'LAB': 'g/cm3', 'ENGLISH': 'lbm/ft3'}.get(system, 'kg/m3'),
        'pressure': {'METRIC': 'kPa', 'METKG/CM2': 'kgf/cm2', 'METBAR': 'bar'}.get(system, 'psi'),
        'volume per time': {'LAB': 'cm3/h', 'ENGLISH': 'bbl/d'}.get(system, 'm3/d')
    }[q]
    for s in (system, system.lower()):
        g = wam.nexus_uom_for_quantity(s, q)
        expect(g == e, 'unit in', s, 'of', q, 'is', g, 'expected', e)
        expect(g in d['units'], 'not a unit:', g)
    flavours = {'pv': ('volume', 'ft3'), 'over pv': ('volume', 'bbl'), 'surface gas rate': ('volume per time', '1000 ft3/d'),
                'fvf': ('volume per volume', 'bbl/bbl'), 'gor': ('volume per volume', '1000 ft3/bbl'),
                'saturation': ('volume per volume', 'ft3/ft3')}
    for f, (fq, u) in flavours.items():
        if system != 'ENGLISH':
            expect(wam.nexus_uom_for_quantity(system, q, f) == e, 'flavour in', system)
        elif q == fq:
            expect(wam.nexus_uom_for_quantity(system, q, f.upper()) == u, 'flavour', f)
        else:
            expect(rq.raises(wam.nexus_uom_for_quantity, system, q, f) is not None, 'flavour', f, 'of', q)
    ctx.step(8)


def jobs(tier):
    out = [(f'pairs{i}', _pairs, dict(part = i, parts = 6)) for i in range(6)]
    n = 6 if tier == 'thorough' else 2
    out += [(f'mixed{i}', _mixed, dict(part = i, parts = n, all_pairs = tier == 'thorough')) for i in range(n)]
    out += [('aliases', _aliases, {}), ('coherence', _coherence, {}), ('quantities', _quantities, {}), ('trans', _trans, {}), ('nexus', _nexus, {})]
    return out
