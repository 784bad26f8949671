"""Specifications of the metadata-only classes: the attributes they are built from and how each attribute reads back.

A specification has axes (attribute -> list of values, the first being the base value); make(model, choice) builds the object
in the model without creating its xml (the objects it needs are created, with reuse); read(obj) gives back the choice."""

import itertools

EM = ({}, {'k': 'v'}, {'k': 'w'}, {'k': 'v', 'n': '2'})
DOMAINS = ('depth', 'time', 'mixed')


class Spec:

    def __init__(self, name, axes, make, read, ignored = (), resqml_type = None, lenient = ()):
        self.name, self.axes, self.make, self.read, self.ignored = name, axes, make, read, set(ignored)
        self.type = resqml_type or name
        self.lenient = set(lenient)  # None is equivalent to anything, by documentation
        self.base = {a: v[0] for a, v in axes.items()}

    def choices(self, changes):
        """All choices differing from the base in at most the given number of axes."""
        out = []
        for k in range(changes + 1):
            for ax in itertools.combinations(self.axes, k):
                for vals in itertools.product(*(self.axes[a][1:] for a in ax)):
                    c = dict(self.base)
                    c.update(zip(ax, vals))
                    out.append(c)
        return out

    def significant(self, c):
        return tuple((a, freeze(c[a])) for a in self.axes if a not in self.ignored)

    def equivalent(self, c, d):
        for a in self.axes:
            if a in self.ignored or (a in self.lenient and (c[a] is None or d[a] is None)):
                continue
            if self.name == 'Crs' and a in ('rotation', 'rotation_units'):
                continue
            if freeze(c[a]) != freeze(d[a]):
                return False
        return self.name != 'Crs' or turn(c) == turn(d)


def turn(c):
    return round(c['rotation'] * (180.0 / 3.141592653589793 if c['rotation_units'] == 'rad' else 1.0), 3)


def freeze(v):
    if isinstance(v, dict):
        return tuple(sorted(v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    return v


SPECS = {}


def spec(name, axes, make, read, **kw):
    SPECS[name] = Spec(name, axes, make, read, **kw)


def attrs(*names, **renamed):
    """A reader of attributes: same name, or the attribute given."""

    def read(o):
        d = {n: getattr(o, n) for n in names}
        d.update({k: (getattr(o, v) if isinstance(v, str) else v(o)) for k, v in renamed.items()})
        d['em'] = dict(o.extra_metadata or {})
        return d

    return read


def made(o):
    o.create_xml()
    return o


def _rqo():
    import resqpy.organize as rqo
    return rqo


def simple(cls, **extra):

    def make(m, c):
        return getattr(_rqo(), cls)(m, feature_name = c['name'], extra_metadata = dict(c['em']),
                                    **{k: c[k] for k in extra})

    axes = dict(name = ['one', 'two', 'One', 'ones'], em = list(EM))
    axes.update({k: list(v) for k, v in extra.items()})
    spec(cls, axes, make, attrs(*extra, name = 'feature_name'))


for _cls in ('BoundaryFeature', 'FrontierFeature', 'GeologicUnitFeature', 'GeobodyFeature', 'WellboreFeature'):
    simple(_cls)
simple('TectonicBoundaryFeature', kind = ('fault', 'fracture'))
simple('FluidBoundaryFeature', kind = ('free water contact', 'gas oil contact', 'gas water contact', 'seal', 'water oil contact'))
simple('OrganizationFeature', organization_kind = ('earth model', 'fluid', 'stratigraphic', 'structural'))
simple('GeneticBoundaryFeature', kind = ('horizon', 'geobody boundary'),
       absolute_age = (None, ('2000-01-01T00:00:00Z', None), ('2000-01-01T00:00:00Z', -3000000), ('2000-01-01T00:00:00Z', 0), ('1999-12-31T00:00:00Z', None)))


def _rock_fluid():

    def feature(m, k):
        kind, name = k
        if kind is None:
            return made(_rqo().BoundaryFeature(m, feature_name = name))
        return made(_rqo().FluidBoundaryFeature(m, kind = kind, feature_name = name))

    def make(m, c):
        return _rqo().RockFluidUnitFeature(m, phase = c['phase'], feature_name = c['name'], extra_metadata = dict(c['em']),
                                           top_boundary_feature = feature(m, c['top']),
                                           base_boundary_feature = feature(m, c['base']))

    def bound(f):
        return (getattr(f, 'kind', None), f.feature_name)

    sides = [('gas oil contact', 'a'), ('gas oil contact', 'b'), ('water oil contact', 'a'), (None, 'a')]
    spec('RockFluidUnitFeature', dict(name = ['one', 'two'], phase = ['oil column', 'aquifer', 'gas cap', 'seal'], top = sides,
                                      base = sides, em = list(EM)), make,
         attrs('phase', name = 'feature_name', top = lambda o: bound(o.top_boundary_feature),
               base = lambda o: bound(o.base_boundary_feature)))


_rock_fluid()


def interp(cls, feature_cls, feature_axis, feature_arg, domain = True, extra = None, rename = None, module = None, fmod = None):
    extra, rename = extra or {}, rename or {}

    def fclass():
        import resqpy.strata as rqst
        return getattr(rqst if fmod else _rqo(), feature_cls)

    def iclass():
        import resqpy.strata as rqst
        return getattr(rqst if module else _rqo(), cls)

    def feature(m, f):
        if fmod:
            return made(fclass()(m, title = f))
        if isinstance(f, tuple):
            arg = 'organization_kind' if feature_cls == 'OrganizationFeature' else 'kind'
            return made(fclass()(m, feature_name = f[0], **{arg: f[1]}))
        return made(fclass()(m, feature_name = f))

    def make(m, c):
        kw = {k: c[k] for k in extra}
        if domain:
            kw['domain'] = c['domain']
        kw[feature_arg] = feature(m, c['feature'])
        if cls == 'FaultInterpretation':
            kw['is_normal'] = c['is_listric'] is None
        o = iclass()(m, title = c['title'], extra_metadata = dict(c['em']), **kw)
        if 'occurred' in axes and c['occurred'] is not None:
            pair = chrono(m, c['occurred'])
            setattr(o, 'main_has_occurred_during' if cls == 'FaultInterpretation' else 'has_occurred_during', pair)
        if c.get('throw'):
            o.throw_interpretation_list = [(t, (None, None)) for t in c['throw']]
        return o

    def read(o):
        d = {k: getattr(o, rename.get(k, k)) for k in extra}
        if domain:
            d['domain'] = o.domain
        f = getattr(o, rename.get(feature_arg, feature_arg))
        d['feature'] = f.title if not isinstance(feature_axis[0], tuple) else (
            f.title, f.organization_kind if feature_cls == 'OrganizationFeature' else f.kind)
        d['title'], d['em'] = o.title, dict(o.extra_metadata or {})
        if 'occurred' in axes:
            pair = o.main_has_occurred_during if cls == 'FaultInterpretation' else o.has_occurred_during
            d['occurred'] = None if pair[0] is None else tuple(o.model.title(uuid = u) for u in pair)
        if 'throw' in axes:
            d['throw'] = None if not o.throw_interpretation_list else [t[0] for t in o.throw_interpretation_list]
        return d

    axes = dict(title = ['t', 'u'], feature = list(feature_axis), em = list(EM[:2]))
    if domain:
        axes['domain'] = list(DOMAINS)
    axes.update({k: list(v) for k, v in extra.items()})
    if cls not in ('WellboreInterpretation',):
        axes['occurred'] = [None, ('old', 'young'), ('old', 'middle')]
    if cls == 'FaultInterpretation':
        axes['throw'] = [None, ['reverse'], ['reverse', 'normal'], ['strike']]
    lenient, ignored = (), ()
    if cls == 'StratigraphicUnitInterpretation':
        lenient, ignored = ('deposition_mode',), ('min_thickness', 'max_thickness', 'thickness_uom')
    spec(cls, axes, make, read, ignored = ignored, lenient = lenient)


def chrono(m, names):
    """Uuids of two objects which stand for the start and end of a time interval."""
    return tuple(str(made(_rqo().GeologicUnitFeature(m, feature_name = n)).uuid) for n in names)


interp('BoundaryFeatureInterpretation', 'BoundaryFeature', ['f', 'g'], 'boundary_feature')
interp('FaultInterpretation', 'TectonicBoundaryFeature', [('f', 'fault'), ('g', 'fault'), ('f', 'fracture')],
       'tectonic_boundary_feature',
       extra = dict(is_listric = [None, True, False], maximum_throw = [None, 2.5, 40.0, 0.0], mean_azimuth = [None, 30.0, 60.0, 0.0],
                    mean_dip = [None, 30.0, 70.0, 0.0]))
interp('HorizonInterpretation', 'GeneticBoundaryFeature', [('f', 'horizon'), ('g', 'horizon'), ('f', 'geobody boundary')],
       'genetic_boundary_feature',
       extra = dict(boundary_relation_list = [None, ['conformable'], ['unconformable above', 'unconformable below'],
                                              ['unconformable below and above']],
                    sequence_stratigraphy_surface = [None, 'flooding', 'maximum flooding', 'ravinement', 'transgressive']))
interp('GeobodyBoundaryInterpretation', 'GeneticBoundaryFeature',
       [('f', 'geobody boundary'), ('g', 'geobody boundary'), ('f', 'horizon')], 'genetic_boundary_feature',
       extra = dict(boundary_relation_list = [None, ['conformable'], ['unconformable above', 'unconformable below']]))
interp('GeobodyInterpretation', 'GeobodyFeature', ['f', 'g'], 'geobody_feature',
       extra = dict(composition = [None, 'intrusive clay', 'organic', 'carbonate', 'evaporite salt'],
                    material_implacement = [None, 'autochtonous', 'allochtonous'],
                    geobody_shape = [None, 'dyke', 'dome', 'wedge']), rename = dict(material_implacement = 'implacement'))
interp('EarthModelInterpretation', 'OrganizationFeature', [('f', 'earth model'), ('g', 'earth model'), ('f', 'structural')],
       'organization_feature')
interp('WellboreInterpretation', 'WellboreFeature', ['f', 'g'], 'wellbore_feature', extra = dict(is_drilled = [False, True]))
interp('GeologicUnitInterpretation', 'GeologicUnitFeature', ['f', 'g'], 'geologic_unit_feature', module = True,
       extra = dict(composition = [None, 'intrusive clay', 'intrusive mud', 'organic', 'carbonate'],
                    material_implacement = [None, 'autochtonous', 'allochtonous']))
interp('StratigraphicUnitInterpretation', 'StratigraphicUnitFeature', ['f', 'g'], 'stratigraphic_unit_feature', module = True,
       fmod = True,
       extra = dict(composition = [None, 'intrusive clay', 'carbonate'], material_implacement = [None, 'autochtonous'],
                    deposition_mode = [None, 'proportional between top and bottom', 'parallel to bottom', 'parallel to top'],
                    min_thickness = [None, 1.5, 0.0], max_thickness = [None, 20.0, 0.0], thickness_uom = ['m', 'ft']))


def _generic():

    def make(m, c):
        f = made(getattr(_rqo(), c['feature'][0])(m, feature_name = c['feature'][1]))
        o = _rqo().GenericInterpretation(m, title = c['title'], feature_uuid = f.uuid, domain = c['domain'],
                                         extra_metadata = dict(c['em']))
        if c['occurred'] is not None:
            o.has_occurred_during = chrono(m, c['occurred'])
        return o

    def read(o):
        pair = o.has_occurred_during
        u = o.feature_uuid
        return dict(title = o.title, domain = o.domain, em = dict(o.extra_metadata or {}),
                    feature = (o.model.type_of_uuid(u, strip_obj = True), o.model.title(uuid = u)),
                    occurred = None if pair[0] is None else tuple(o.model.title(uuid = u) for u in pair))

    spec('GenericInterpretation', dict(title = ['t', 'u'], feature = [('BoundaryFeature', 'f'), ('BoundaryFeature', 'g'),
                                                                      ('FrontierFeature', 'f')],
                                       domain = list(DOMAINS), occurred = [None, ('old', 'young'), ('old', 'middle')],
                                       em = list(EM[:2])), make, read, resqml_type = 'GenericFeatureInterpretation')


_generic()


def _strat_feature():
    import functools

    def make(m, c):
        import resqpy.strata as rqst
        us = {n: chrono(m, (n, n))[0] for n in ('old', 'young')}
        return rqst.StratigraphicUnitFeature(m, title = c['name'], extra_metadata = dict(c['em']),
                                             top_unit_uuid = us.get(c['top']), bottom_unit_uuid = us.get(c['bottom']))

    def read(o):
        t = [None if u is None else o.model.title(uuid = u) for u in (o.top_unit_uuid, o.bottom_unit_uuid)]
        return dict(name = o.title, em = dict(o.extra_metadata or {}), top = t[0], bottom = t[1])

    spec('StratigraphicUnitFeature', dict(name = ['one', 'two'], top = [None, 'old', 'young'], bottom = [None, 'old', 'young'],
                                          em = list(EM)), make, read, ignored = ('top', 'bottom'))


_strat_feature()

CRS_AXES = dict(x_offset = [0.0, 1000.5, -2.125], y_offset = [0.0, 7.25, 1000.5], z_offset = [0.0, 100.0, -0.5],
                rotation = [0.0, 0.25, -1.5, 90.0], rotation_units = ['dega', 'rad'], xy_units = ['m', 'ft', 'ft[US]'],
                z_units = ['m', 'ft', 'ft[US]'], z_inc_down = [True, False],
                axis_order = ['easting northing', 'northing easting', 'westing southing', 'southing westing', 'northing westing',
                              'westing northing'],
                time_units = [None, 's', 'ms'], epsg_code = [None, '27700', '23031'], title = ['t', 'u'], em = list(EM[:2]))


def _crs():

    def make(m, c):
        import resqpy.crs as rqc
        kw = {k: c[k] for k in CRS_AXES if k != 'em'}
        return rqc.Crs(m, extra_metadata = dict(c['em']), **kw)

    spec('Crs', CRS_AXES, make, attrs(*(k for k in CRS_AXES if k != 'em')), ignored = ('title',), lenient = ('epsg_code',))


_crs()


def _lookup():

    def make(m, c):
        import resqpy.property as rqp
        return rqp.StringLookup(m, int_to_str_dict = dict(c['table']), title = c['title'], extra_metadata = dict(c['em']))

    def read(o):
        return dict(title = o.title, table = tuple(sorted(o.as_dict().items())), em = dict(o.extra_metadata or {}))

    tables = [((0, 'a'), (1, 'b')), ((0, 'b'), (1, 'a')), ((0, 'a'),), ((1, 'a'), (2, 'b')), ((-2, 'a'), (1, 'b')),
              ((0, 'a'), (1, 'c')), ((0, 'a'), (90, 'b')), ((0, 'a'), (1, 'b'), (2, 'c')), ((0, 'a'), (2, 'c')), ((0, 'a'), (1, 'a')), ((0, 'a b'), (3, 'c & <d>'))]
    spec('StringLookup', dict(table = tables, title = ['t', 'u'], em = list(EM[:2])), make, read, ignored = ('em',),
         resqml_type = 'StringTableLookup')


_lookup()


def _kind():

    def make(m, c):
        import resqpy.property as rqp
        return rqp.PropertyKind(m, title = c['title'], is_abstract = c['is_abstract'], example_uom = c['example_uom'],
                                naming_system = c['naming_system'], parent_property_kind = c['parent'],
                                extra_metadata = dict(c['em']))

    spec('PropertyKind', dict(title = ['t', 'u'], is_abstract = [False, True], example_uom = ['m', 'ft', 'Euc'],
                              naming_system = ['urn:resqml:bp.com:resqpy', 'urn:other'],
                              parent = ['continuous', 'discrete', 'length'], em = list(EM)), make,
         attrs('title', 'is_abstract', 'example_uom', 'naming_system', parent = 'parent_kind'))


_kind()


def _times():

    def make(m, c):
        import resqpy.time_series as rqts
        t = rqts.TimeSeries(m, title = c['title'], first_timestamp = c['stamps'][0], extra_metadata = dict(c['em']))
        for s in c['stamps'][1:]:
            t.add_timestamp(s)
        return t

    def read(o):
        em = {k: v for k, v in (o.extra_metadata or {}).items() if k != 'timeframe'}
        return dict(title = o.title, stamps = tuple(o.timestamps), em = em)

    a = '2000-01-01T00:00:00Z'
    spec('TimeSeries', dict(stamps = [(a,), (a, '2000-02-29T00:00:00Z'), (a, '2000-03-01T00:00:00Z'),
                                      ('2000-01-01T00:00:05Z',), ('2000-01-01T00:00:05Z', '2000-02-29T00:00:00Z'),
                                      (a, '2000-02-29T00:00:00Z', '2001-01-01T12:30:59Z')], title = ['t', 'u'],
                            em = list(EM[:2])), make, read, ignored = ('title', 'em'))

    def gmake(m, c):
        import resqpy.time_series as rqts
        return rqts.GeologicTimeSeries.from_year_list(m, list(c['years']), title = c['title'])

    def gread(o):
        return dict(title = o.title, years = tuple(o.timestamps))

    spec('GeologicTimeSeries', dict(years = [(-5000,), (-5000, -10), (-5000, -11), (-5001,), (-300000000, -5000, 0)],
                                    title = ['t', 'u']), gmake, gread, ignored = ('title',), resqml_type = 'TimeSeries')


_times()


def _datum():

    def make(m, c):
        import resqpy.crs as rqc
        import resqpy.well as rqw
        crs = rqc.Crs(m, title = 'c', x_offset = c['crs'])
        crs.create_xml()
        return rqw.MdDatum(m, crs_uuid = crs.uuid, location = c['location'], md_reference = c['md_reference'], title = c['title'],
                           extra_metadata = dict(c['em']))

    def read(o):
        import resqpy.crs as rqc
        return dict(title = o.title, em = dict(o.extra_metadata or {}), location = tuple(float(x) for x in o.location),
                    md_reference = o.md_reference, crs = rqc.Crs(o.model, uuid = o.crs_uuid).x_offset)

    refs = ['mean sea level', 'ground level', 'kelly bushing', 'derrick floor', 'casing flange', 'arbitrary point', 'crown valve',
            'rotary bushing', 'rotary table', 'sea floor', 'lowest astronomical tide', 'mean higher high water', 'mean high water',
            'mean lower low water', 'mean low water', 'mean tide level', 'kickoff point']
    spec('MdDatum', dict(location = [(0.0, 0.0, 0.0), (1.5, -2.25, 3.125), (467892.123, 5300123.789, -25.4), (0.1, 0.2, 0.3)],
                         md_reference = refs, crs = [0.0, 10.0], title = ['t', 'u'], em = list(EM[:2])), make, read,
         ignored = ('title', 'em'))


_datum()


def load(m, sp, uuid):
    import resqpy.crs as rqc
    import resqpy.property as rqp
    import resqpy.strata as rqst
    import resqpy.time_series as rqts
    import resqpy.well as rqw
    for mod in (_rqo(), rqc, rqp, rqst, rqts, rqw):
        if hasattr(mod, sp.name):
            return getattr(mod, sp.name)(m, uuid = uuid)
    raise KeyError(sp.name)
