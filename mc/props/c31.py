"""C31: files in simulator formats are read as what they say, and what is written to them says what the model holds.

Every layout of an array in a text file (spacing, line breaks, comments, keyword, headers) x every shape and type x the
pure binary copy; every way of writing an array, read with a reader of its own; corner point files of every kind of grid
x units x direction of z x ordering x the ways of importing them, with properties and ensembles; coarsening given by
ICOARS or KID arrays; fault tables with every arrangement of headers, comments and rows."""

import itertools
import os

import numpy as np

from mc import ijk, rq
from mc.core import about, expect
from mc.props.c15 import KINDS
from mc.rq import near, same

ID = 'C31'
TITLE = 'simulator files'
BOUNDS = {
    'quick': '6 shapes x 3 types x 12 layouts x 5 kinds of comment x keyword or none x text or binary, read three times; '
             '5 shapes x 4 types x all options of writing; 10 grids x units x z direction x crs written and read back; '
             '8 grids x 16 pairs of units x z directions x origins imported; every coarsened box of a 2x3x3 grid; '
             'fault tables of up to 3 blocks',
    'thorough': 'the same without thinning out: every combination of options, three times as many fault tables'
}
TO_M = {'m': 1.0, 'ft': 0.3048, 'cm': 0.01, 'ft[US]': 1200.0 / 3937.0}


def warm(tier):
    import resqpy.grid, resqpy.rq_import, resqpy.model, resqpy.crs, resqpy.property, resqpy.fault  # noqa


def numbers(shape, kind):
    n = int(np.prod(shape))
    if kind == 'real':
        return np.array([(-1)**i * (i * 1.25 + (0.001 if i % 3 else 1.0e5)) for i in range(n)]).reshape(shape)
    if kind == 'int':
        return np.array([(-1)**i * (i * 7 + 1) for i in range(n)]).reshape(shape)
    return np.array([(i * i + i // 2) % 3 != 0 for i in range(n)]).reshape(shape)


def word(v, kind, style):
    if kind == 'real':
        v = float(v)
        return ('%.4f' % v, '%.8e' % v, repr(v))[style % 3]
    return str(int(v))


# ------------------------------------------------------------------------------------------------------ reading arrays

LAYOUTS = [dict(per = 1), dict(per = 3), dict(per = 100), dict(per = 2, sep = '\t'), dict(per = 4, sep = '   ', lead = '  '),
           dict(per = 2, blank = True), dict(per = 3, last = ''), dict(per = 3, mid = True), dict(per = 2, trail = True),
           dict(per = 3, mid = True, trail = True, blank = True, lead = '\t'), dict(per = 5, sep = ' \t ', after = True),
           dict(per = 2, trail = True, last = '')]
COMMENTS = ['! ', '# ', '-- ', 'C ', '!']


def text_of(a, kind, layout, comment, keyword, header):
    lines = []
    if header:
        lines += [comment + 'made 1 2 3 times', '', comment + 'for 4.5 %s' % comment]
    if keyword:
        lines += [('KX' if keyword == 'other' else keyword) + ' VALUE']
    flat = a.flatten()
    per = layout['per']
    for n, s in enumerate(range(0, flat.size, per)):
        row = layout.get('lead', '') + layout.get('sep', ' ').join(word(v, kind, n + i) for i, v in enumerate(flat[s:s + per]))
        if layout.get('trail') and n % 2 == 0:
            row += '  ' + comment + 'row %d 99' % n
        if layout.get('blank') and n:
            lines.append('')
        if layout.get('mid') and n % 2:
            lines.append(comment + '77 88')
        lines.append(row)
    if layout.get('after'):
        lines += ['', comment + 'end 5', '']
    return '\n'.join(lines) + layout.get('last', '\n')


def do_read(ctx, shape, kind):
    import resqpy.olio.load_data as ld

    def case(layout, comment, keyword, header, told):
        d = ctx.dir()
        f = os.path.join(d, 'a.dat')
        a = numbers(shape, kind)
        open(f, 'w').write(text_of(a, kind, layout, comment, keyword, header))
        kw = dict(data_type = dict(real = 'float', int = 'integer', bool = 'boolean').get(kind) if told else kind)
        if told:
            kw['comment_char'] = comment.strip()
        if keyword:
            kw['keyword'] = 'KX'

        def check(got, b, what):
            with about(what):
                expect(got is not None and got.shape == tuple(shape), 'shape', None if got is None else got.shape, shape)
                expect(got.dtype.kind == dict(real = 'f', int = 'i', bool = 'b')[kind], 'type', got.dtype)
                expect(near(got, b, 1.0e-9) if kind == 'real' else same(got, b), 'values', got, b)

        check(ld.load_array_from_file(f, list(shape), **kw), a, 'text')
        expect(sorted(os.listdir(d)) == ['a.dat'], 'files left by reading text', os.listdir(d))
        os.utime(f, (1.0e9, 1.0e9))
        check(ld.load_array_from_file(f, list(shape), use_binary = True, **kw), a, 'text leaving a binary copy')
        b = f + dict(real = '.db', int = '.lb', bool = '.bb')[kind]
        expect(sorted(os.listdir(d)) == sorted(['a.dat', os.path.basename(b)]), 'files left', os.listdir(d))
        check(np.fromfile(b, dtype = dict(real = '<f8', int = '<i8', bool = 'bool')[kind]).reshape(shape), a, 'the binary copy')
        check(ld.load_array_from_file(f, list(shape), use_binary = True, **kw), a, 'from the binary copy')
        check(ld.load_array_from_file(b, list(shape), use_binary = True, **kw), a, 'the binary copy by its own name')
        other = a[::-1].copy() if kind != 'bool' else np.logical_not(a)
        open(f, 'w').write(text_of(other, kind, layout, comment, keyword, header))
        os.utime(b, (1.1e9, 1.1e9))
        os.utime(f, (1.2e9, 1.2e9))
        check(ld.load_array_from_file(f, list(shape), **kw), other, 'text again')
        check(ld.load_array_from_file(f, list(shape), use_binary = True, **kw), other, 'newer text than the binary copy')
        os.utime(f, (1.0e9, 1.0e9))
        open(f, 'w').write('rubbish')
        os.utime(f, (1.0e9, 1.0e9))
        check(ld.load_array_from_file(f, list(shape), use_binary = True, **kw), other, 'from the new binary copy')
        ctx.state((shape, kind, comment, keyword, header))
        ctx.step(8)
        ctx.outcome('read')

    for n, (layout, comment, keyword, header) in enumerate(itertools.product(LAYOUTS, COMMENTS, (None, 'KX', 'kx'), (False, True))):
        for told in (False, True):
            if told and comment in ('-- ',):
                continue  # a single character is asked for
            if not told and comment in ('# ', '-- ', 'C ') and not header:
                continue  # the comment character cannot be guessed
            if kind != 'real' and n % 3 and ctx.tier == 'quick':
                continue
            if keyword == 'kx' and comment != '! ':
                continue
            ctx.run(dict(shape = shape, kind = kind, layout = str(layout), comment = comment, keyword = keyword, header = header, told = told),
                    case, layout, comment, keyword, header, told)


def do_read_flat(ctx):
    import resqpy.olio.load_data as ld

    def case(kind, layout, n):
        d = ctx.dir()
        f = os.path.join(d, 'a.dat')
        a = numbers((n,), kind)
        open(f, 'w').write('\n' + text_of(a, kind, layout, '!', None, False))
        for free in (False, True):
            got = ld.load_array_from_file(f, None, data_type = kind, data_free_of_comments = free)
            expect(got.ndim == 1 and got.size == n and near(got.astype(float), a.astype(float), 1.0e-9), 'all the numbers of a file', got, a)
        b = os.path.join(d, 'x' + dict(real = '.db', int = '.lb', bool = '.bb')[kind])
        a.tofile(b)
        got = ld.load_array_from_file(b, None, data_type = kind, use_binary = True)
        expect(got.size == n and same(got, a), 'all the numbers of a binary file', got, a)
        ctx.state((kind, n))
        ctx.step(3)
        ctx.outcome('flat')

    for kind in ('real', 'int', 'bool'):
        for layout in LAYOUTS:
            if layout.get('mid') or layout.get('trail') or layout.get('after'):
                continue
            for n in (1, 2, 5, 12):
                ctx.run(dict(kind = kind, layout = str(layout), n = n), case, kind, layout, n)


def do_binary(ctx):
    import resqpy.olio.ab_toolbox as abt

    def case(ext, shape):
        d = ctx.dir()
        f = os.path.join(d, 'a' + ext)
        a = numbers(shape, 'bool' if ext == '.bb' else 'int' if ext in ('.lb', '.ib') else 'real')
        dt = {'.db': '<f8', '.fb': '<f4', '.lb': '<i8', '.ib': '<i4', '.bb': 'i1'}[ext]
        a = a.astype(dt)
        a.tofile(f)
        got = abt.load_array_from_ab_file(f, shape)
        expect(got.shape == tuple(shape) and got.dtype == np.dtype(dt) and same(got, a), 'binary array', got, a)
        ctx.state((ext, shape))
        ctx.outcome(ext)

    for ext in ('.db', '.fb', '.lb', '.ib', '.bb'):
        for shape in ((1,), (2, 3), (1, 2, 3), (3, 1, 2), (2, 2, 2)):
            ctx.run(dict(ext = ext, shape = shape), case, ext, shape)


# ------------------------------------------------------------------------------------------------------ writing arrays

def own_reader(text, comment = '!'):
    """(comment lines, lines of words) without blank lines."""
    com, rows = [], []
    for line in text.split('\n'):
        if line.strip().startswith(comment):
            com.append(line)
        elif line.split():
            rows.append(line)
    return com, rows


def check_text(text, a, kind, columns, headers, keyword, decimals, tab, nansub):
    com, rows = own_reader(text)
    expect((len(com) > 0) == headers, 'comment lines', com)
    if keyword is not None:
        expect(rows and rows[0] == keyword, 'keyword line', rows[:1])
        rows = rows[1:]
    words = [r.split() for r in rows]
    expect(all(len(w) <= columns for w in words), 'numbers on a line', [len(w) for w in words], columns)
    if tab is not None:
        expect(all((' ' if tab else '\t') not in r for r in rows), 'separator')
    ni = a.shape[2]
    want = [min(columns, ni - s) for _ in range(a.shape[0] * a.shape[1]) for s in range(0, ni, columns)]
    expect([len(w) for w in words] == want, 'numbers on the lines', [len(w) for w in words], want)
    flat = [w for r in words for w in r]
    b = a.flatten()
    expect(len(flat) == b.size, 'how many numbers', len(flat), b.size)
    if kind == 'real':
        for w, v in zip(flat, b):
            if np.isnan(v):
                if nansub is None:
                    expect(w.lower() == 'nan', 'not a number', w)
                    continue
                v = nansub
            expect(len(w.partition('.')[2]) == decimals, 'decimals', w, decimals)
            expect(abs(float(w) - v) <= 0.5000001 * 10.0**-decimals + abs(v) * 1.0e-12, 'number written', w, v)
    else:
        expect([int(w) for w in flat] == [int(v) for v in b], 'numbers written', flat, b)


def do_write(ctx, shape):
    import resqpy.olio.write_data as wd
    import resqpy.olio.load_data as ld

    def case(kind, dtype, columns, headers, keyword, after_i, after_j, spaced, decimals, nansub, binary, only):
        d = ctx.dir()
        f = os.path.join(d, 'a.dat')
        a = numbers(shape, kind).astype(dtype)
        if kind == 'real' and nansub != 'none':
            a.flat[a.size // 2] = np.nan
        nan = None if nansub in ('none', 'keep') else nansub
        before = a.copy()
        wd.write_array_to_ascii_file(f, shape, a, headers = headers, keyword = keyword, columns = columns, data_type = kind,
                                     decimals = decimals, blank_line_after_i_block = after_i, blank_line_after_j_block = after_j,
                                     space_separated = spaced, use_binary = binary, binary_only = only, nan_substitute_value = nan)
        expect(same(a, before), 'the array given has changed')
        b = f + dict(real = '.db', int = '.lb', bool = '.bb')[kind]
        expect(os.path.exists(f) == (not (binary and only)) and os.path.exists(b) == binary, 'files written', os.listdir(d))
        full = a if nan is None else np.where(np.isnan(a), nan, a)
        if os.path.exists(f):
            text = open(f).read()
            check_text(text, a, kind, columns, headers, keyword, decimals, not spaced, nan)
            if nansub != 'keep':
                got = ld.load_array_from_file(f, list(shape), data_type = kind, keyword = None if keyword is None else keyword.split()[0])
                expect(near(got.astype(float), full.astype(float), 0.51 * 10.0**-decimals + (1.0e-2 if dtype == 'float32' else 0.0)), 'read back', got, full)
            wd.write_array_to_ascii_file(f, shape, a, headers = headers, keyword = keyword, columns = columns, data_type = kind,
                                         decimals = decimals, space_separated = spaced, append = True, nan_substitute_value = nan)
            more = open(f).read()
            expect(more.startswith(text), 'appended to the file')
            check_text(more[len(text):], a, kind, columns, headers, keyword, decimals, not spaced, nan)
        if binary:
            got = np.fromfile(b, dtype = dict(real = '<f8', int = '<i8', bool = 'bool')[kind])
            expect(got.size == full.size and np.array_equal(got, full.flatten().astype(got.dtype), equal_nan = kind == 'real'), 'binary copy', got, full)
            if only:
                got = ld.load_array_from_file(f, list(shape), data_type = kind, use_binary = True)
                expect(np.array_equal(got, full, equal_nan = kind == 'real'), 'binary copy read', got, full)
        ctx.state((shape, kind, str(dtype), columns, headers, keyword))
        ctx.step(3)
        ctx.outcome(kind)

    n = 0
    for kind, dtype in (('real', 'float64'), ('real', 'float32'), ('int', 'int64'), ('int', 'int32'), ('bool', 'bool'), ('bool', 'int8')):
        for columns, (headers, keyword), (after_i, after_j), spaced in itertools.product(
            (1, 2, 3, 20), ((True, None), (False, 'KX VALUE'), (True, 'PORO'), (False, None)),
                itertools.product((False, True), repeat = 2), (False, True)):
            for decimals, nansub in ((3, 'none'), (1, 'keep'), (5, -999.0), (3, 0.0)) if kind == 'real' else ((3, 'none'),):
                for binary, only in ((False, False), (True, False), (True, True)):
                    n += 1
                    if n % 7 and ctx.tier == 'quick':
                        continue
                    ctx.run(dict(kind = kind, dtype = dtype, columns = columns, headers = headers, keyword = keyword, after = (after_i, after_j),
                                 spaced = spaced, decimals = decimals, nan = nansub, binary = binary, only = only),
                            case, kind, dtype, columns, headers, keyword, after_i, after_j, spaced, decimals, nansub, binary, only)


# --------------------------------------------------------------------------------------------------- properties in files

PROPS = [('PORO', 'porosity', 'm3/m3', None, None, 'real'), ('PERM K', 'rock permeability', 'mD', 'direction', 'K', 'real'),
         ('NTG', 'net to gross ratio', 'm3/m3', None, None, 'real'), ('REGION', 'region initialization', None, None, None, 'int'),
         ('AROUND', 'marker', None, None, None, 'int')]


def do_props(ctx, share, of):
    import resqpy.grid as grr
    import resqpy.property as rqp

    def case(shape, real, time_index, how):
        path = ctx.path('m.epc')
        m = rq.new_model(path, crs = True, h5 = True)
        g = grr.RegularGrid(m, extent_kji = shape, dxyz = (10.0, 20.0, 3.0), as_irregular_grid = True)
        g.write_hdf5()
        g.create_xml()
        ts = None
        if time_index is not None:
            import resqpy.time_series as rts
            ts = rts.TimeSeries(m, first_timestamp = '2000-01-01')
            ts.add_timestamp('2001-01-01')
            ts.add_timestamp('2002-01-01')
            ts.create_xml()
        given = {}
        for n, (title, kind, uom, ft, f, t) in enumerate(PROPS):
            a = numbers(shape, t) + n
            p = rqp.Property.from_array(m, a, 'test', title, support_uuid = g.uuid, property_kind = kind, uom = uom, discrete = t == 'int', facet_type = ft,
                                        facet = f, realization = real, null_value = -1 if t == 'int' else None, time_index = time_index,
                                        time_series_uuid = None if ts is None else ts.uuid)
            given[title] = (a, p.uuid)
        m.store_epc()
        rq.close(m)
        m = rq.open_model(path)
        g = grr.any_grid(m, uuid = m.uuid(obj_type = 'IjkGridRepresentation'))
        d = ctx.dir()
        out = os.path.join(d, 'out')
        os.makedirs(out, exist_ok = True)
        pc = g.extract_property_collection()
        binary = how != 'text'
        opts = dict(columns = 3, decimals = 5, use_binary = binary, binary_only = how == 'only')
        pc.write_nexus_collection(out, use_title_for_keyword = False, **opts)
        names = {}
        for title, kind, uom, ft, f, t in PROPS:
            names[title] = title.replace(' ', '_') + ('' if ft is None else '_' + ft + '_' + f) + ('' if time_index is None else '_t_%d' % time_index) \
                           + ('' if real is None else '_r_%d' % real)
        want = []
        for title, *_, t in PROPS:
            want += [] if how == 'only' else [names[title]]
            want += [names[title] + ('.db' if t == 'real' else '.lb')] if binary else []
        listed = sorted(x for x in os.listdir(out) if not x[:2] in ('DX', 'DY', 'DZ'))  # the grid has cell lengths as well
        expect(listed == sorted(want), 'files for the properties', listed, sorted(want))
        for title, *_, t in PROPS:
            a = given[title][0]
            fn = os.path.join(out, names[title])
            if how != 'only':
                check_text(open(fn).read(), a, t, 3, True, None, 5, True, None)
            if binary:
                got = np.fromfile(fn + ('.db' if t == 'real' else '.lb'), dtype = '<f8' if t == 'real' else '<i8')
                expect(got.size == a.size and near(got, a.flatten().astype(float), 1.0e-6), 'binary file of', title, got, a)
            one = os.path.join(d, 'one_%s' % t)
            part = m.part_for_uuid(given[title][1])
            pc.write_nexus_property(part, one, keyword = 'KEY', headers = False, columns = 2, decimals = 4, space_separated = True)
            check_text(open(one).read(), a, t, 2, False, 'KEY', 4, False, None)
        # imported for a second grid of the model
        g2 = grr.RegularGrid(m, extent_kji = shape, dxyz = (1.0, 2.0, 3.0), title = 'second', as_irregular_grid = True)
        g2.write_hdf5()
        g2.create_xml()
        c2 = rqp.GridPropertyCollection()
        c2.set_grid(g2)
        for title, kind, uom, ft, f, t in PROPS:
            fn = os.path.join(out, names[title])
            kw = dict(uom = uom, property_kind = kind, facet_type = ft, facet = f, realization = real, time_index = time_index,
                      null_value = -1 if t == 'int' else None)
            if how == 'only':
                got = c2.import_ab_property_to_cache(fn + ('.db' if t == 'real' else '.lb'), title, discrete = t == 'int', **kw)
            else:
                got = c2.import_nexus_property_to_cache(fn, title, discrete = t == 'int', use_binary = binary, **kw)
            expect(got is not None and got.shape == tuple(shape) and near(got.astype(float), given[title][0].astype(float), 1.0e-5), 'imported', title, got)
        c2.write_hdf5_for_imported_list()
        c2.create_xml_for_imported_list_and_add_parts_to_model(time_series_uuid = None if ts is None else ts.uuid)
        m.store_epc()
        rq.close(m)
        m = rq.open_model(path)
        g2 = grr.any_grid(m, uuid = g2.uuid)
        c2 = g2.extract_property_collection()
        expect(len([x for x in c2.titles() if x not in ('DX', 'DY', 'DZ')]) == len(PROPS), 'properties of the second grid', c2.titles())
        for title, kind, uom, ft, f, t in PROPS:
            with about('property %s' % title):
                part = c2.singleton(citation_title = title)
                expect(part is not None, 'not there')
                expect(near(c2.cached_part_array_ref(part).astype(float), given[title][0].astype(float), 1.0e-5), 'values')
                expect(c2.property_kind_for_part(part) == kind and c2.facet_for_part(part) == f and c2.facet_type_for_part(part) == ft, 'kind and facet')
                expect(c2.realization_for_part(part) == real and c2.time_index_for_part(part) == time_index, 'realization and time')
                expect(c2.continuous_for_part(part) == (t == 'real'), 'continuous')
                if t == 'real':
                    expect(c2.uom_for_part(part) == uom, 'unit', c2.uom_for_part(part))
                else:
                    expect(c2.null_value_for_part(part) == -1, 'null value')
        rq.close(m)
        ctx.state((shape, real, time_index, how))
        ctx.step(4 * len(PROPS))
        ctx.outcome(how)

    n = 0
    for shape in ((1, 1, 1), (1, 2, 3), (2, 1, 4), (3, 2, 1), (2, 3, 2)):
        for real in (None, 0, 3):
            for time_index in (None, 0, 2):
                for how in ('text', 'both', 'only'):
                    n += 1
                    if n % of == share:
                        ctx.run(dict(shape = shape, real = real, time = time_index, how = how), case, shape, real, time_index, how)


# --------------------------------------------------------------------------------------------------- corner point files

def swapped(cp):
    """The corners of cells in the order of a corner point file."""
    a = cp.copy()
    a[:, :, :, :, 1, 0], a[:, :, :, :, 1, 1] = cp[:, :, :, :, 1, 1], cp[:, :, :, :, 1, 0]
    return a


def corp_text(cp, decimals, style, comment = '!'):
    lines = [comment + ' corner points', '']
    flat = swapped(cp).reshape((-1, 3))
    for n, p in enumerate(flat):
        if n % 8 == 0:
            lines += ['', comment + ' cell %d' % (n // 8)]
        lines.append(('  ' if style else '\t').join('%.*f' % (decimals, v) for v in p))
    return '\n'.join(lines) + '\n'


def grids(tier):
    for ext in ((2, 2, 2), (1, 2, 3), (3, 1, 1), (1, 1, 2), (2, 3, 2)):
        for kind in KINDS:
            if kind != 'unsplit' and ext[1] * ext[2] == 1:
                continue
            for gap in (False, True):
                if gap and ext[0] == 1:
                    continue
                yield (ext, kind, gap)


def spec_of(ext, kind, gap, **kw):
    return ijk.Spec(*ext, parts = KINDS[kind](ext[1], ext[2]), gaps = [gap and k == 0 for k in range(ext[0] - 1)], **kw)


def do_write_corp(ctx, ext, kind, gap):
    import resqpy.olio.load_data as ld

    def case(crs_kw, kw, opts):
        path = ctx.path('g.epc')
        m = rq.new_model(path, h5 = True)
        crs = rq.add_crs(m, **crs_kw)
        up = not crs_kw.get('z_inc_down', True)
        spec = spec_of(ext, kind, gap, up = up)
        g = ijk.build(m, crs, spec)
        g.write_hdf5()
        g.create_xml()
        before = g.corner_points().copy()
        f = os.path.join(ctx.dir(), 'corp.dat')
        g.write_nexus_corp(f, **kw, **opts)
        # what the file should hold
        want = spec.cp.copy()
        xyu, zu = crs_kw.get('xy_units', 'm'), crs_kw.get('z_units', 'm')
        if not kw.get('local_coords'):
            want = want + np.array((crs_kw.get('x_offset', 0.0), crs_kw.get('y_offset', 0.0), crs_kw.get('z_offset', 0.0)))
            if up != (not kw.get('global_z_increasing_downward', True)):
                want[..., 2] *= -1.0
        want[..., :2] *= TO_M[xyu]
        want[..., 2] *= TO_M[zu]
        system = kw.get('nexus_unit_system')
        if system is None:
            guess = zu if kw.get('local_coords') else kw.get('global_z_units') or zu
            system = 'ENGLISH' if guess.startswith('ft') else 'LAB' if guess == 'cm' else 'METRIC'
        want /= TO_M[dict(ENGLISH = 'ft', LAB = 'cm').get(system, 'm')]
        text = open(f).read()
        com, rows = own_reader(text)
        head = []
        while rows and not rows[0].strip()[0] in '-0123456789':
            w = rows.pop(0).split()
            head.append(w[0])
            if w[0] == 'NX':
                expect([int(x) for x in rows.pop(0).split()] == [ext[2], ext[1], ext[0]] and w == ['NX', 'NY', 'NZ'], 'extent in the file')
            elif w[0] == 'CORP':
                expect(w == ['CORP', 'VALUE'], 'keyword', w)
        rh = spec.right_handed(crs)
        z_down = (not up) if kw.get('local_coords') else kw.get('global_z_increasing_downward', True)
        xyz_right = not z_down
        names = []
        if opts.get('write_units_keyword'):
            names.append(system)
        if opts.get('write_nx_ny_nz'):
            names.append('NX')
        if opts.get('write_rh_keyword_if_needed') and rh == xyz_right:
            names.append('RIGHTHANDED')
        if opts.get('write_corp_keyword'):
            names.append('CORP')
        expect(head == names, 'headings', head, names)
        words = [[float(x) for x in r.split()] for r in rows]
        expect(all(len(w) == 3 for w in words), 'three numbers on each line')
        got = np.array(words).reshape(spec.cp.shape)
        expect(near(got, swapped(want), 6.0e-4), 'corner points written', got, swapped(want))
        expect(same(g.corner_points(), before), 'the grid has changed')
        kwl = {} if opts.get('write_corp_keyword') else dict(max_lines_for_keyword = 0)
        if not names or names[-1] == 'CORP':
            back = ld.load_corp_array_from_file(f, list(ext), **kwl)
            expect(back is not None and near(back, want, 6.0e-4), 'corner points read back')
        if opts.get('use_binary'):
            got = np.fromfile(f + '.db').reshape(spec.cp.shape)
            expect(near(got, swapped(want), 1.0e-6), 'binary corner points')
        rq.close(m)
        ctx.state((ext, kind, gap, str(crs_kw), str(kw)))
        ctx.step(2)
        ctx.outcome(tuple(head))

    crss = [dict(), dict(xy_units = 'ft', z_units = 'ft'), dict(xy_units = 'm', z_units = 'ft', x_offset = 1000.0, y_offset = -250.0, z_offset = 30.0),
            dict(z_inc_down = False), dict(z_inc_down = False, x_offset = 50.0, z_offset = -20.0, xy_units = 'cm', z_units = 'm')]
    ways = [dict(), dict(local_coords = True), dict(nexus_unit_system = 'METRIC'), dict(nexus_unit_system = 'ENGLISH'), dict(global_z_increasing_downward = False),
            dict(global_z_units = 'ft'), dict(global_xy_units = 'ft', global_z_units = 'm'), dict(nexus_unit_system = 'LAB'),
            dict(nexus_unit_system = 'METBAR', local_coords = True)]
    options = [dict(), dict(write_corp_keyword = True), dict(write_nx_ny_nz = True, write_units_keyword = True, write_rh_keyword_if_needed = True, write_corp_keyword = True),
               dict(use_binary = True)]
    for n, (c, w, o) in enumerate(itertools.product(crss, ways, options)):
        if ctx.tier == 'quick' and (n + sum(ext)) % 3:
            continue
        if c.get('z_offset') and not w.get('local_coords') and c.get('z_inc_down', True) != w.get('global_z_increasing_downward', True):
            continue  # a vertical offset and an inversion together: the finding listed for C08
        ctx.run(dict(crs = str(c), way = str(w), options = str(o)), case, c, w, o)


def do_import(ctx, ext, kind, gap):
    import resqpy.grid as grr
    import resqpy.model as rq_
    import resqpy.rq_import as rqi

    def case(units, z, local, source, given_extent, mask):
        d = ctx.dir()
        xy, zu, rxy, rz = units
        down, rdown = z
        crs_up = not down
        spec = spec_of(ext, kind, gap, up = crs_up)
        cp = np.round(spec.cp, 4)
        f = os.path.join(d, 'corp.dat')
        kw = dict(corp_file = f)
        if source in ('text', 'binary'):
            open(f, 'w').write(corp_text(cp, 4, 0))
        elif source == 'eight':
            lines = []
            for c in cp.reshape((-1, 8, 3)):
                lines += [' '.join('%.4f' % v for v in c[:, a]) for a in range(3)] + ['']
            open(f, 'w').write('\n'.join(lines) + '\n')
            kw['corp_eight_mode'] = True
        else:
            rec = np.zeros((cp.size // 24, 26), dtype = '>f4')
            rec[:, 1:25] = swapped(cp).reshape((-1, 24))
            rec.view('>i4')[:, (0, 25)] = 96
            rec.tofile(f)
            kw = dict(corp_bin_file = f)
        active = np.ones(ext, dtype = bool)
        if mask:
            active.flat[::3] = False
            fa = os.path.join(d, 'active.dat')
            open(fa, 'w').write('! active\n\n' + '\n'.join(str(int(v)) for v in active.flat) + '\n')
            kw['active_mask_file'] = fa
            fp = os.path.join(d, 'poro.dat')
            open(fp, 'w').write('\n'.join('%.3f' % (0.001 * v) for v in range(active.size)) + '\n')
            kw['property_array_files'] = [(fp, 'PORO', 'm3/m3', None, None, False)]
        rh = False  # the grid of a Spec: i east, j north, k downwards (in either direction of z)
        tol = 2.0e-3 if source == 'corp bin' else 1.0e-6
        root = os.path.join(d, 'out')
        for again in ((0, 1) if source == 'binary' else (0,)):
            if again:
                for n in os.listdir(d):
                    os.utime(os.path.join(d, n), (1.2e9, 1.2e9))
                open(f, 'w').write('')
                os.utime(f, (1.0e9, 1.0e9))
            m = rqi.import_nexus(root + ('.epc' if again else ''), extent_ijk = tuple(reversed(ext)) if given_extent else None,
                                 corp_xy_units = xy, corp_z_units = zu, corp_z_inc_down = down, resqml_xy_units = rxy, resqml_z_units = rz,
                                 resqml_z_inc_down = rdown, shift_to_local = local is not None, local_origin_place = local or 'centre',
                                 ijk_handedness = 'left' if not rh else 'right', use_binary = source == 'binary', grid_title = 'GRD',
                                 max_z_void = 0.1 if not gap else 0.3, **kw)
            expect(m is not None, 'nothing imported')
            rq.close(m)
            m = rq.open_model(root + '.epc')
            us = m.uuids(obj_type = 'IjkGridRepresentation')
            expect(len(us) == 1 and m.title(uuid = us[0]) == 'GRD', 'grids in the model', us)
            g = grr.any_grid(m, uuid = us[0])
            crs = g.crs
            expect(crs.xy_units == rxy and crs.z_units == rz and bool(crs.z_inc_down) == rdown, 'crs', crs.xy_units, crs.z_units, crs.z_inc_down)
            want = cp.copy()
            want[..., :2] *= TO_M[xy] / TO_M[rxy]
            want[..., 2] *= TO_M[zu] / TO_M[rz]
            if down != rdown:
                want[..., 2] *= -1.0
            expect(tuple(g.extent_kji) == tuple(ext), 'extent', g.extent_kji)
            got = g.corner_points().copy()
            off = np.array((crs.x_offset, crs.y_offset, crs.z_offset))
            if local is None:
                expect(near(off, np.zeros(3), 1.0e-9), 'origin', off)
            elif local == 'centre':
                expect(near(off, want.reshape((-1, 3)).mean(axis = 0), max(tol, 1.0e-5 * np.abs(want).max() if source == 'corp bin' else 6.0e-4)), 'origin at the centre', off)
            else:
                expect(near(off, want.reshape((-1, 3)).min(axis = 0) - 1.0, max(tol, 6.0e-4)), 'origin at the minimum', off)
            t = 3.0e-6 * np.abs(want).max() if source == 'corp bin' else 1.0e-5 * max(1.0, 1.0 / TO_M[rxy] / 100.0)
            expect(near(got + off, want, max(t, 1.0e-5 if local is None else 6.0e-4)), 'corner points', got + off, want)
            expect(bool(g.has_split_coordinate_lines) == spec.split(), 'split pillars', g.has_split_coordinate_lines)
            expect((g.k_gaps or 0) == (1 if gap else 0), 'k gaps', g.k_gaps)
            ina = g.extract_inactive_mask()
            expect(np.array_equal(np.zeros(ext, dtype = bool) if ina is None else np.asarray(ina, dtype = bool), ~active), 'inactive cells', ina)
            rq.close(m)
        ctx.state((ext, kind, gap, units, z, local, source, mask))
        ctx.step(3)
        ctx.outcome((source, given_extent))

    n = 0
    for units in (('m', 'm', 'm', 'm'), ('ft', 'ft', 'ft', 'ft'), ('ft', 'ft', 'm', 'm'), ('m', 'ft', 'm', 'm'), ('ft', 'm', 'm', 'ft'),
                  ('m', 'm', 'ft', 'm'), ('m', 'm', 'm', 'ft'), ('cm', 'm', 'm', 'ft')):
        for z in itertools.product((True, False), repeat = 2):
            for local in (None, 'centre', 'minimum'):
                for source in ('text', 'binary', 'eight', 'corp bin'):
                    for given_extent in (True, False):
                        for mask in (False, True):
                            if not given_extent and (gap or kind != 'unsplit' or ext[0] * ext[1] * ext[2] not in (8, 12) or min(ext) < 2):
                                continue
                            if not given_extent and source == 'binary':
                                continue
                            n += 1
                            if ctx.tier == 'quick' and (n + 3 * sum(ext)) % 11:
                                continue
                            ctx.run(dict(units = units, z = z, local = local, source = source, extent = given_extent, mask = mask),
                                    case, units, z, local, source, given_extent, mask)


def do_only_active(ctx):
    import resqpy.grid as grr
    import resqpy.rq_import as rqi

    def case(ext, dead):
        d = ctx.dir()
        f = os.path.join(d, 'corp.dat')
        open(f, 'w').write(corp_text(spec_of(ext, 'unsplit', False, up = False).cp, 4, 0))
        active = np.ones(ext, dtype = bool)
        active.flat[dead] = False
        fa = os.path.join(d, 'active.dat')
        open(fa, 'w').write('\n'.join(str(int(v)) for v in active.flat) + '\n')
        root = os.path.join(d, 'out')
        rq.close(rqi.import_nexus(root, corp_file = f, active_mask_file = fa, extent_ijk = tuple(reversed(ext)), grid_title = 'GRD'))
        m = rq.open_model(root + '.epc')
        g = grr.any_grid(m, uuid = m.uuid(obj_type = 'IjkGridRepresentation'))
        ina = g.extract_inactive_mask()
        expect(ina is not None and np.array_equal(ina, ~active), 'no inactive cells in grid imported without any static property')
        rq.close(m)
        ctx.outcome('only active')

    for ext, dead in (((1, 1, 2), 0), ((1, 1, 2), 1), ((2, 2, 2), 0)):
        ctx.run('%s %d' % (ext, dead), case, ext, dead)


def do_voids(ctx):
    """The tolerances are in the units of the corner points, whatever the units of the model."""
    import resqpy.grid as grr
    import resqpy.rq_import as rqi

    def case(zu, rz, void, gap_size):
        d = ctx.dir()
        f = os.path.join(d, 'corp.dat')
        cp = np.zeros((2, 1, 2, 2, 2, 2, 3))
        for k, j, i, kp, jp, ip in itertools.product(range(2), range(1), range(2), range(2), range(2), range(2)):
            cp[k, j, i, kp, jp, ip] = (100.0 * (i + ip), 100.0 * (j + jp), 1000.0 + 20.0 * (k + kp) + gap_size * k)
        open(f, 'w').write(corp_text(cp, 4, 1))
        m = rqi.import_nexus(os.path.join(d, 'o'), extent_ijk = (2, 1, 2), corp_file = f, corp_xy_units = 'm', corp_z_units = zu, resqml_xy_units = 'm',
                             resqml_z_units = rz, max_z_void = void, ijk_handedness = 'left')
        g = grr.any_grid(m, uuid = m.uuid(obj_type = 'IjkGridRepresentation'))
        expect((g.k_gaps or 0) == (1 if gap_size > void else 0), 'k gaps', g.k_gaps, gap_size, void)
        rq.close(m)
        ctx.state((zu, rz, void, gap_size))
        ctx.outcome(gap_size > void)

    for zu, rz in itertools.product(('m', 'ft'), repeat = 2):
        for void in (0.1, 0.5, 2.0):
            for gs in (0.0, 0.5 * void, 0.9 * void, 1.1 * void, 2.0 * void):
                ctx.run(dict(zu = zu, rz = rz, void = void, gap = gs), case, zu, rz, void, gs)


def do_import_props(ctx, share, of):
    import resqpy.grid as grr
    import resqpy.property as rqp
    import resqpy.rq_import as rqi

    def case(ext, route, binary, prop_set, mode):
        d = ctx.dir()
        spec = spec_of(ext, 'unsplit', False)
        f = os.path.join(d, 'corp.dat')
        open(f, 'w').write(corp_text(np.round(spec.cp, 4), 4, 1))
        root = os.path.join(d, 'out')
        base = dict(extent_ijk = tuple(reversed(ext)), corp_file = f, ijk_handedness = 'left', use_binary = binary, create_property_set = prop_set)
        if mode == 'a':
            m = rqi.import_nexus(root, grid_title = 'FIRST', **dict(base, create_property_set = False))
            first = m.uuid(obj_type = 'IjkGridRepresentation')
            rq.close(m)
        items = [('PORO', 'm3/m3', 'real', 'porosity', None, None), ('SW', 'm3/m3', 'real', 'saturation', 'what', 'water'),
                 ('KX', 'mD', 'real', 'rock permeability', 'direction', 'I'), ('IREG', None, 'int', 'region initialization', None, None)]
        arrays, case_list = {}, [None]
        kw = {}
        if route == 'files':
            kw['property_array_files'] = []
            for n, (t, uom, k, pk, ft, fa) in enumerate(items):
                a = arrays[(t, None)] = numbers(ext, k) + n
                fn = os.path.join(d, t + '.dat')
                open(fn, 'w').write(text_of(a, k, LAYOUTS[n], '! ', None, True))
                arrays[(t, None)] = a
                kw['property_array_files'].append((fn, t, uom, None, -1 if k == 'int' else None, k == 'int'))
        elif route in ('ab', 'add'):
            lst = []
            for n, (t, uom, k, pk, ft, fa) in enumerate(items):
                a = arrays[(t, None)] = numbers(ext, k) + n
                e = (('.db', '.fb') if k == 'real' else ('.ib', '.lb'))[n % 2]
                fn = os.path.join(d, t + e)
                a.astype({'.db': '<f8', '.fb': '<f4', '.lb': '<i8', '.ib': '<i4'}[e]).tofile(fn)
                lst.append((fn, t, pk, ft, fa, uom, None, -1 if k == 'int' else None, k == 'int'))
            if route == 'ab':
                kw['ab_property_list'] = lst
        else:
            case_list = [0, 2, 11] if route == 'ensemble' else [5]
            kw['ensemble_case_dirs_root'] = os.path.join(d, 'case')
            kw['ensemble_property_dictionary'] = {}
            for n, (t, uom, k, pk, ft, fa) in enumerate(items):
                kw['ensemble_property_dictionary'][t] = (t + '.dat', pk, ft, fa, uom, None, -1 if k == 'int' else None, k == 'int')
                for c in case_list:
                    os.makedirs(os.path.join(d, 'case%d' % c), exist_ok = True)
                    a = arrays[(t, c)] = numbers(ext, k) + n * 10 + c
                    open(os.path.join(d, 'case%d' % c, t + '.dat'), 'w').write(text_of(a, k, LAYOUTS[n + c % 3], '! ', None, True))
        m = rqi.import_nexus(root, grid_title = 'SECOND', mode = mode, **base, **kw)
        rq.close(m)
        gu = None
        if route == 'add':
            m = rq.open_model(root + '.epc')
            gu = m.uuid(obj_type = 'IjkGridRepresentation', title = 'SECOND')
            rq.close(m)
            m = rqi.add_ab_properties(root + '.epc', grid_uuid = gu if mode == 'a' else None, ab_property_list = [x + (7,) for x in lst])
            rq.close(m)
            arrays = {(t, 7): a for (t, _), a in arrays.items()}
            case_list = [7]
        m = rq.open_model(root + '.epc')
        us = m.uuids(obj_type = 'IjkGridRepresentation')
        expect(len(us) == (2 if mode == 'a' else 1), 'grids', us)
        g = grr.any_grid(m, uuid = m.uuid(obj_type = 'IjkGridRepresentation', title = 'SECOND'))
        expect(near(g.corner_points(), spec.cp, 1.0e-3), 'geometry')
        pc = g.extract_property_collection()
        parts = [p for p in pc.parts() if pc.citation_title_for_part(p) in [i[0] for i in items]]
        expect(len(parts) == len(arrays), 'properties', [pc.citation_title_for_part(p) for p in pc.parts()], len(arrays))
        for (t, c), a in arrays.items():
            uom, k, pk, ft, fa = next(i[1:] for i in items if i[0] == t)
            with about('property %s' % t):
                part = pc.singleton(citation_title = t, realization = c)
                expect(part is not None, 'not there', c)
                got = pc.cached_part_array_ref(part)
                expect(near(got.astype(float), a.astype(float), 1.0e-2 if route in ('ab', 'add') else 1.0e-5), 'values', got, a)
                expect(pc.realization_for_part(part) == c, 'realization')
                expect(pc.continuous_for_part(part) == (k == 'real'), 'type')
                if k == 'real':
                    expect(pc.uom_for_part(part) == uom, 'unit', pc.uom_for_part(part), uom)
                else:
                    expect(pc.null_value_for_part(part) == -1, 'null value', pc.null_value_for_part(part))
                if route != 'files':
                    expect(pc.property_kind_for_part(part) == pk and pc.facet_type_for_part(part) == ft and pc.facet_for_part(part) == fa, 'kind',
                           pc.property_kind_for_part(part), pc.facet_for_part(part))
        ps = m.uuids(obj_type = 'PropertySet')
        if prop_set and route != 'add':
            expect(len(ps) == len(case_list), 'property sets', len(ps))
            for u in ps:
                s = rqp.PropertyCollection()
                s.set_support(support = g)
                s.populate_from_property_set(m.root_for_uuid(u))
                n = [q for q in s.parts() if pc.citation_title_for_part(q) in [i[0] for i in items]]
                expect(len(n) == len(items) and len(set(pc.realization_for_part(q) for q in n)) == 1, 'members of a property set', s.parts())
        if mode == 'a':
            g1 = grr.any_grid(m, uuid = first)
            expect(near(g1.corner_points(), spec.cp, 1.0e-3), 'the grid that was there')
        rq.close(m)
        rq.Stored(root + '.epc').check_wellformed()
        ctx.state((ext, route, binary, prop_set, mode))
        ctx.step(len(arrays))
        ctx.outcome(route)

    n = 0
    for ext in ((2, 2, 2), (1, 2, 3), (3, 1, 2), (1, 1, 1)):
        for route in ('files', 'ab', 'add', 'ensemble', 'one case'):
            for binary in (False, True):
                for prop_set in (False, True):
                    for mode in ('w', 'a'):
                        n += 1
                        if n % of == share:
                            ctx.run(dict(ext = ext, route = route, binary = binary, set = prop_set, mode = mode), case, ext, route, binary, prop_set, mode)


def do_decoarsen(ctx, share, of):
    import resqpy.grid as grr
    import resqpy.property as rqp

    def boxes(shape):
        for lo in itertools.product(*[range(n) for n in shape]):
            for hi in itertools.product(*[range(l, n) for l, n in zip(lo, shape)]):
                if lo != hi:
                    yield lo, hi

    def case(shape, lo, hi, how, order, dead):
        path = ctx.path('m.epc')
        m = rq.new_model(path, crs = True, h5 = True)
        g = grr.RegularGrid(m, extent_kji = shape, dxyz = (10.0, 20.0, 3.0), as_irregular_grid = True)
        nat = np.arange(np.prod(shape)).reshape(shape)
        host = nat.copy()
        sl = tuple(slice(l, h + 1) for l, h in zip(lo, hi))
        host[sl] = nat[lo]
        inside = np.zeros(shape, dtype = bool)
        inside[sl] = True
        shares = np.ones((4,) + tuple(shape))
        for a in range(3):
            shares[a + 1][sl] = hi[a] - lo[a] + 1
        shares[0] = shares[1] * shares[2] * shares[3]
        kid = np.zeros(shape, dtype = int)
        kid[inside] = -3
        kid[lo] = 0
        off = np.zeros(shape, dtype = bool)
        if dead:
            spare = [c for c in np.ndindex(*shape) if not inside[c]]
            if spare:
                off[spare[-1]] = True
                kid[spare[-1]] = -1
        g.inactive = (kid != 0)
        c = rqp.GridPropertyCollection()
        c.set_grid(g)
        vol = 100.0 * (nat + 1.0)
        items = [('PV', vol, 'pore volume', None, None, False, vol.flatten()[host] / shares[0]),
                 ('PORO', nat * 0.01, 'porosity', None, None, False, (nat * 0.01).flatten()[host]),
                 ('TX', nat + 0.5, 'transmissibility', 'direction', 'I', False, nat + 0.5),
                 ('DZ', nat + 2.0, 'cell length', 'direction', 'K', False, (nat + 2.0).flatten()[host] / shares[1]),
                 ('DY', nat + 3.0, 'cell length', 'direction', 'J', False, (nat + 3.0).flatten()[host] / shares[2]),
                 ('DX', nat + 4.0, 'cell length', 'direction', 'I', False, (nat + 4.0).flatten()[host] / shares[3]),
                 ('THICK', nat + 5.0, 'thickness', None, None, False, (nat + 5.0).flatten()[host] / shares[1]),
                 ('LEN', nat + 6.0, 'length', None, None, False, nat + 6.0),
                 ('FIP', nat * 2, 'region initialization', None, None, True, (nat * 2).flatten()[host])]
        if how == 'ICOARS':
            items.append(('ICOARS', host + 1, None, None, None, True, host + 1))
        elif how == 'KID':
            items.append(('KID', kid, None, None, None, True, kid))
        items = items[order:] + items[:order]
        for t, a, pk, ft, fa, disc, _ in items:
            c.add_cached_array_to_imported_list(a.copy(), 'test', t, discrete = disc, uom = None if disc else 'Euc', property_kind = pk, facet_type = ft, facet = fa)
        got = c.decoarsen_imported_list(decoarsen_array = host.copy() if how == 'given' else None)
        expect(got is not None and same(np.asarray(got).reshape(shape), host), 'mapping', got, host)
        for n, (t, a, pk, ft, fa, disc, want) in enumerate(items):
            now = c.cached_imported_array_ref(n) if hasattr(c, 'cached_imported_array_ref') else getattr(c, c.imported_list[n][3])
            expect(now.shape == tuple(shape) and near(now.astype(float), want.astype(float), 1.0e-9), 'decoarsened', t, now, want)
        expect(np.array_equal(g.inactive, off), 'inactive cells', g.inactive, off)
        rq.close(m)
        ctx.state((shape, lo, hi, how))
        ctx.step(len(items))
        ctx.outcome(how)

    n = 0
    for shape in ((2, 3, 3), (1, 1, 4), (3, 2, 1)):
        for lo, hi in boxes(shape):
            for how in ('ICOARS', 'KID', 'given'):
                # KID data only say which cells are inside boxes, and other boxes can be drawn unless a box is at the corner
                if how == 'KID' and any(lo):
                    continue
                n += 1
                if n % of == share:
                    for order in ((n // of) % 9, (n // of + 5) % 9):
                        ctx.run(dict(shape = shape, lo = lo, hi = hi, how = how, order = order), case, shape, lo, hi, how, order, n % 2)


# ---------------------------------------------------------------------------------------------------------- fault tables

def do_faults(ctx, share, of):
    from resqpy.olio.read_nexus_fault import load_nexus_fault_mult_table

    rows = [[(1, 1, 2, 2, 1, 3, 0.5)], [(1, 2, 1, 1, 1, 1, 0.0), (12, 12, 3, 4, 2, 2, 1.0)], [(3, 3, 3, 3, 3, 3, 1.0e-5), (1, 1, 1, 1, 1, 2, 0.25), (2, 2, 2, 2, 1, 2, 1.5)]]
    heads = [dict(axis = 'TX', side = 'PLUS', grid = None, name = 'F1'), dict(axis = 'TY', side = 'MINUS', grid = 'ROOT', name = 'f_two'),
             dict(axis = 'TZ', side = 'PLUS', grid = 'LGR1', name = None), dict(axis = 'TI', side = None, grid = 'ROOT', name = 'A-3'),
             dict(axis = 'TJ', side = 'PLUS', grid = None, name = None), dict(axis = 'TK', side = 'MINUS', grid = 'G2', name = 'F1')]

    def text(blocks, style):
        out = ['! faults 1 2 3', 'C a remark', ''] if style & 1 else []
        for h, r in blocks:
            out.append('MULT ' + h['axis'] + ' ALL' + ('' if h['side'] is None else ' ' + h['side']) + ' MULT' + (' ! TX MINUS' if style & 2 else ''))
            extra = []
            if h['grid'] is not None:
                extra.append('  GRID ' + h['grid'])
            if h['name'] is not None:
                extra.append('\tFNAME ' + h['name'] + ('  ! the name 7' if style & 2 else ''))
            if style & 4:
                extra.reverse()
            out += extra
            if style & 1:
                out += ['! i1 i2', '   ! 1 1 1 1 1 1 1', '']
            for n, x in enumerate(r):
                out.append(('\t' if style & 4 else '  ').join(str(v) for v in x) + (' ! 9' if style & 2 else ''))
                if style & 1 and n == 0:
                    out += ['', 'C 5 5 5', '! 1 1 1 1 1 1 0.1']
            if style & 2:
                out.append('')
        return '\n'.join(out) + ('' if style & 4 else '\n')

    def case(blocks, style):
        f = os.path.join(ctx.dir(), 'faults.inc')
        open(f, 'w').write(text(blocks, style))
        df = load_nexus_fault_mult_table(f)
        want = []
        for h, r in blocks:
            face = dict(X = 'I', Y = 'J', Z = 'K').get(h['axis'][1], h['axis'][1]) + ('-' if h['side'] == 'MINUS' else '')
            want += [x + (h['grid'] or 'ROOT', h['name'] or 'NONE', face) for x in r]
        cols = ['i1', 'i2', 'j1', 'j2', 'k1', 'k2', 'mult', 'grid', 'name', 'face']
        expect(len(df) == len(want), 'rows', len(df), len(want))
        if want:
            expect(list(df.columns) == cols, 'columns', list(df.columns))
        for n, w in enumerate(want):
            got = [df.iloc[n][c] for c in cols]
            expect([int(x) for x in got[:6]] == list(w[:6]) and abs(float(got[6]) - w[6]) < 1.0e-12 and [str(x) for x in got[7:]] == list(w[7:]), 'row', n, got, w)
        ctx.state(tuple(want))
        ctx.step(len(want))
        ctx.outcome(len(blocks))

    n = 0
    for count in (0, 1, 2, 3):
        for blocks in itertools.product(itertools.product(range(len(heads)), range(len(rows))), repeat = count):
            for style in range(8):
                n += 1
                if n % of != share or (count == 3 and n % (19 if ctx.tier == 'quick' else 3)):
                    continue
                ctx.run(dict(blocks = blocks, style = style), case, [(heads[h], rows[r]) for h, r in blocks], style)


def do_fault_sets(ctx, share, of):
    """Fault files made into grid connection sets with multipliers."""
    import resqpy.fault as rqf
    import resqpy.grid as grr
    import resqpy.organize as rqo

    def case(rowsets, split_files, tm):
        path = ctx.path('m.epc')
        m = rq.new_model(path, crs = True, h5 = True)
        g = grr.RegularGrid(m, extent_kji = (2, 3, 3), dxyz = (10.0, 20.0, 3.0), title = 'ROOT', as_irregular_grid = True)
        g.write_hdf5()
        g.create_xml()
        m.store_epc()
        d = ctx.dir()
        files, want = [], {}
        for n, (axis, minus, name, rows) in enumerate(rowsets):
            out = ['MULT T%s ALL %s MULT' % (axis, 'MINUS' if minus else 'PLUS'), ' GRID ROOT', ' FNAME ' + name]
            for r in rows:
                out.append(' '.join(str(v) for v in r))
                ax = 'ZYX'.index(axis)
                for i, j, k in itertools.product(range(r[0], r[1] + 1), range(r[2], r[3] + 1), range(r[4], r[5] + 1)):
                    a = [k - 1, j - 1, i - 1]
                    b = list(a)
                    b[ax] += -1 if minus else 1
                    if 0 <= b[ax] < (2, 3, 3)[ax]:
                        want[(name, ax, tuple(min(a, b)))] = r[6]
            files.append(os.path.join(d, 'f%d.inc' % n))
            open(files[-1], 'w').write('\n'.join(out) + '\n')
        if not split_files:
            one = os.path.join(d, 'all.inc')
            open(one, 'w').write('\n'.join(open(f).read() for f in files))
            files = one
        u = rqf.add_connection_set_and_tmults(m, files, tmult_dict = tm)
        rq.close(m)
        m = rq.open_model(path)
        g = grr.any_grid(m, uuid = g.uuid)
        s = rqf.GridConnectionSet(m, uuid = u)
        s.cache_arrays()
        got = {}
        names = s.list_of_feature_names()
        for fi in range(len(names)):
            c, f = s.list_of_cell_face_pairs_for_feature_index(fi)
            for (a, b), (fa, fb) in zip(c, f):
                ax = int(fa[0])
                got.setdefault((names[fi], ax, tuple(min(tuple(int(x) for x in a), tuple(int(x) for x in b)))), 0)
        expect(sorted(got) == sorted(want), 'faces of the faults', sorted(got), sorted(want))
        for name in names:
            iu = m.uuid(obj_type = 'FaultInterpretation', title = name)
            expect(iu is not None, 'no interpretation for', name)
            em = rqo.FaultInterpretation(m, uuid = iu).extra_metadata
            rows = next(r for _, _, nm, r in rowsets if nm == name)
            if len(rows) == 1:
                v = [x for k, x in em.items() if 'mult' in k.lower()]
                expect(len(v) == 1 and abs(float(v[0]) - rows[0][6] * (1.0 if tm is None else tm[name])) < 1.0e-9, 'multiplier of', name, em)
        rq.close(m)
        ctx.state((str(rowsets), split_files))
        ctx.step(len(want))
        ctx.outcome(len(names))

    sets = [('X', False, 'FA', [(1, 1, 1, 3, 1, 2, 0.5)]), ('X', True, 'FA2', [(3, 3, 1, 2, 1, 1, 0.25)]), ('Y', False, 'FB', [(1, 3, 1, 1, 1, 2, 0.1)]),
            ('Y', True, 'FC', [(2, 2, 3, 3, 2, 2, 1.0), (1, 1, 3, 3, 1, 1, 0.5)]), ('Z', False, 'FD', [(1, 2, 1, 2, 1, 1, 0.75)])]
    n = 0
    for count in (1, 2, 3):
        for combo in itertools.permutations(sets, count):
            for split in (False, True):
                for tm in (None, {'FA': 0.125, 'FC': 0.0, 'FD': 2.5, 'FB': 1.0, 'FA2': 0.75}):
                    n += 1
                    if n % of == share and not (count == 3 and n % 3):
                        ctx.run(dict(sets = [c[2] for c in combo], split = split, tm = tm is not None), case, combo, split, tm)


SHAPES = [(1, 1, 1), (1, 2, 3), (2, 3, 4), (4,), (3, 2), (2, 2, 2, 3)]


def jobs(tier):
    js = []
    for shape in SHAPES:
        for kind in ('real', 'int', 'bool'):
            js.append(('read %s of %s' % (kind, 'x'.join(str(s) for s in shape)), do_read, dict(shape = shape, kind = kind)))
    js.append(('all of a file', do_read_flat, {}))
    js.append(('pure binary', do_binary, {}))
    for shape in ((1, 1, 1), (1, 2, 3), (2, 3, 4), (3, 1, 1), (2, 2, 7)):
        js.append(('write %s' % 'x'.join(str(s) for s in shape), do_write, dict(shape = shape)))
    for s in range(6):
        js.append(('properties in files, part %d' % s, do_props, dict(share = s, of = 6)))
    for ext, kind, gap in grids(tier):
        name = '%s, %s%s' % ('x'.join(str(e) for e in ext), kind, ', gap' if gap else '')
        js.append(('corner points written, %s' % name, do_write_corp, dict(ext = ext, kind = kind, gap = gap)))
        js.append(('corner points imported, %s' % name, do_import, dict(ext = ext, kind = kind, gap = gap)))
    js.append(('voids', do_voids, {}))
    js.append(('only active cells', do_only_active, {}))
    for s in range(6):
        js.append(('imports with properties, part %d' % s, do_import_props, dict(share = s, of = 6)))
    for s in range(4):
        js.append(('decoarsen, part %d' % s, do_decoarsen, dict(share = s, of = 4)))
    for s in range(4):
        js.append(('fault tables, part %d' % s, do_faults, dict(share = s, of = 4)))
    for s in range(4):
        js.append(('fault sets, part %d' % s, do_fault_sets, dict(share = s, of = 4)))
    return js
