"""Builds a small model holding at least one object of (nearly) every class, through the public interface."""

import numpy as np

SECTIONS = ['organize', 'strata', 'time', 'grid', 'props', 'well', 'surface', 'lines', 'unstructured', 'gcs', 'frame']


def split_grid(model, title = 'split grid', crs_uuid = None, k_gap = False):
    """A 2 x 2 x 2 grid with a fault between the columns of the first and second i; via corner points."""
    import resqpy.rq_import as rqi
    from resqpy.grid import Grid
    cp = corner_points(throw = 0.4)
    g = rqi.grid_from_cp(model, cp, crs_uuid, ijk_handedness = 'right')
    g.title = title
    g.grid_representation = 'IjkGrid'
    return g


def corner_points(nk = 2, nj = 2, ni = 2, throw = 0.4, dx = 10.0, dy = 20.0, dz = 1.0, top = 100.0, slope = 0.0):
    cp = np.empty((nk, nj, ni, 2, 2, 2, 3))
    for k in range(nk):
        for j in range(nj):
            for i in range(ni):
                for kp in range(2):
                    for jp in range(2):
                        for ip in range(2):
                            x = dx * (i + ip)
                            y = dy * (j + jp)
                            z = top + dz * (k + kp) + (throw if i > 0 else 0.0) + slope * x
                            cp[k, j, i, kp, jp, ip] = (x, y, z)
    return cp


def build(model, sections = None, tag = ''):
    """Returns dict name -> uuid of the objects created (in creation order)."""
    import resqpy.crs as rqc
    z = {}
    sections = SECTIONS if sections is None else sections
    crs = rqc.Crs(model, title = 'crs' + tag, x_offset = 1000.5, y_offset = -20.25, rotation = 0.1, z_inc_down = True)
    crs.create_xml()
    z['crs'] = crs.uuid
    crs2 = rqc.Crs(model, title = 'crs ft' + tag, xy_units = 'ft', z_units = 'ft', epsg_code = '27700')
    crs2.create_xml()
    z['crs2'] = crs2.uuid
    for s in sections:
        globals()['_' + s](model, z, crs, tag)
    return z


def _organize(m, z, crs, tag):
    import resqpy.organize as rqo
    em = {'a key': 'a value', 'n': '3'}

    def add(name, obj):
        obj.create_xml()
        z[name] = obj.uuid
        return obj

    f = add('boundary_feature', rqo.BoundaryFeature(m, feature_name = 'bf' + tag, extra_metadata = em))
    add('boundary_interp', rqo.BoundaryFeatureInterpretation(m, title = 'bfi' + tag, boundary_feature = f))
    f = add('tectonic', rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = 'fault 1' + tag))
    add('fault_interp', rqo.FaultInterpretation(m, title = 'fi' + tag, tectonic_boundary_feature = f, is_normal = True,
                                                maximum_throw = 3.5, mean_azimuth = 45.0, mean_dip = 80.0))
    f = add('genetic', rqo.GeneticBoundaryFeature(m, kind = 'horizon', feature_name = 'hor' + tag))
    add('horizon_interp', rqo.HorizonInterpretation(m, title = 'hi' + tag, genetic_boundary_feature = f, domain = 'depth',
                                                    boundary_relation_list = ['conformable'],
                                                    sequence_stratigraphy_surface = 'maximum flooding'))
    gb = add('genetic2', rqo.GeneticBoundaryFeature(m, kind = 'geobody boundary', feature_name = 'gbb' + tag))
    add('geobody_boundary_interp', rqo.GeobodyBoundaryInterpretation(m, title = 'gbi' + tag, genetic_boundary_feature = gb,
                                                                     boundary_relation_list = ['conformable']))
    f = add('geobody', rqo.GeobodyFeature(m, feature_name = 'gb' + tag))
    add('geobody_interp', rqo.GeobodyInterpretation(m, title = 'gi' + tag, geobody_feature = f, composition = 'intrusive clay',
                                                    material_implacement = 'autochtonous', geobody_shape = 'dyke'))
    f = add('organization', rqo.OrganizationFeature(m, feature_name = 'org' + tag, organization_kind = 'earth model'))
    add('earth_model_interp', rqo.EarthModelInterpretation(m, title = 'emi' + tag, organization_feature = f))
    add('frontier', rqo.FrontierFeature(m, feature_name = 'fr' + tag))
    f = add('fluid_boundary', rqo.FluidBoundaryFeature(m, kind = 'gas oil contact', feature_name = 'goc' + tag))
    b = add('fluid_boundary2', rqo.FluidBoundaryFeature(m, kind = 'water oil contact', feature_name = 'owc' + tag))
    add('rock_fluid', rqo.RockFluidUnitFeature(m, phase = 'oil column', feature_name = 'oil' + tag, top_boundary_feature = f,
                                               base_boundary_feature = b))
    f = add('wellbore_feature', rqo.WellboreFeature(m, feature_name = 'well A' + tag))
    add('wellbore_interp', rqo.WellboreInterpretation(m, title = 'wi' + tag, is_drilled = True, wellbore_feature = f))
    f = add('geologic_unit', rqo.GeologicUnitFeature(m, feature_name = 'gu' + tag))


def _strata(m, z, crs, tag):
    import resqpy.strata as rqs
    import resqpy.organize as rqo
    of = rqo.OrganizationFeature(m, feature_name = 'strat' + tag, organization_kind = 'stratigraphic')
    of.create_xml()
    z['strat_org'] = of.uuid
    units = []
    for n in ('upper', 'lower'):
        f = rqs.StratigraphicUnitFeature(m, title = n + tag)
        f.create_xml()
        z['suf_' + n] = f.uuid
        i = rqs.StratigraphicUnitInterpretation(m, title = n + ' interp' + tag, stratigraphic_unit_feature = f,
                                                composition = 'carbonate', deposition_mode = 'parallel to top',
                                                min_thickness = 1.5, max_thickness = 20.0, thickness_uom = 'm')
        i.create_xml()
        z['sui_' + n] = i.uuid
        units.append(i.uuid)
    r = rqs.StratigraphicColumnRank(m, rank_index = 0, domain = 'depth', earth_model_feature_uuid = of.uuid,
                                    strata_uuid_list = units, title = 'rank' + tag)
    r.set_contacts_from_horizons = None
    r.create_xml()
    z['strat_rank'] = r.uuid
    c = rqs.StratigraphicColumn(m, rank_uuid_list = [r.uuid], title = 'column' + tag)
    c.create_xml()
    z['strat_column'] = c.uuid


def _time(m, z, crs, tag):
    import resqpy.time_series as rqts
    t = rqts.TimeSeries(m, first_timestamp = '2000-01-01T00:00:00Z', yearly = 2, title = 'ts' + tag)
    t.create_xml()
    z['time_series'] = t.uuid
    g = rqts.GeologicTimeSeries.from_year_list(m, [-5000000, -1000000, 0], title = 'gts' + tag)
    g.create_xml()
    z['geologic_time_series'] = g.uuid


def _grid(m, z, crs, tag):
    import resqpy.grid as grr
    g = grr.RegularGrid(m, extent_kji = (2, 3, 2), dxyz = (10.0, 20.0, 3.0), origin = (5.0, 6.0, 100.0), crs_uuid = crs.uuid,
                        title = 'block' + tag)
    g.create_xml(add_cell_length_properties = False)
    z['regular_grid'] = g.uuid
    s = split_grid(m, 'split' + tag, crs.uuid)
    s.inactive = np.zeros((2, 2, 2), dtype = bool)
    s.inactive[0, 1, 0] = True
    s.write_hdf5()
    s.create_xml()
    z['split_grid'] = s.uuid


def _props(m, z, crs, tag):
    import resqpy.property as rqp
    if 'split_grid' not in z:
        _grid(m, z, crs, tag)
    if 'time_series' not in z:
        _time(m, z, crs, tag)
    g = z['split_grid']
    lut = rqp.StringLookup(m, int_to_str_dict = {0: 'sand', 1: 'shale', 2: 'coal & tuff'}, title = 'facies table' + tag)
    lut.create_xml()
    z['lookup'] = lut.uuid
    pk = rqp.PropertyKind(m, title = 'my kind' + tag, parent_property_kind = 'continuous', example_uom = 'm')
    pk.create_xml()
    z['property_kind'] = pk.uuid
    n8 = np.arange(8, dtype = float).reshape((2, 2, 2))
    P = rqp.Property.from_array
    z['por'] = P(m, n8 / 10.0, 'model', 'POR' + tag, g, property_kind = 'porosity', uom = 'm3/m3', facet_type = None).uuid
    z['perm'] = P(m, n8 * 3.0 + 1.0, 'model', 'PERM' + tag, g, property_kind = 'permeability rock', uom = 'mD',
                  facet_type = 'direction', facet = 'K').uuid
    z['sat'] = P(m, n8 / 8.0, 'sim', 'SW' + tag, g, property_kind = 'saturation', uom = 'm3/m3', facet_type = 'what',
                 facet = 'water', time_series_uuid = z['time_series'], time_index = 1, realization = 3).uuid
    z['facies'] = P(m, np.array([0, 1, 2, 0, 1, 2, 0, 1]).reshape((2, 2, 2)), 'model', 'FACIES' + tag, g,
                    property_kind = 'facies', discrete = True, string_lookup_uuid = lut.uuid).uuid
    z['disc'] = P(m, np.arange(8).reshape((2, 2, 2)) - 3, 'model', 'REGION' + tag, g, property_kind = 'region initialization',
                  discrete = True, null_value = -1).uuid
    z['const'] = P(m, None, 'model', 'NTG' + tag, g, property_kind = 'net to gross ratio', uom = 'm3/m3',
                   const_value = 0.75).uuid
    z['mine'] = P(m, n8[0], 'model', 'MINE' + tag, g, local_property_kind_uuid = pk.uuid, property_kind = 'my kind' + tag,
                  uom = 'm', indexable_element = 'columns').uuid
    z['points'] = P(m, np.stack([n8, n8 + 1, n8 + 2], axis = -1), 'model', 'PTS' + tag, g, property_kind = 'length', uom = 'm',
                    points = True).uuid


def _well(m, z, crs, tag):
    import resqpy.well as rqw
    import resqpy.organize as rqo
    if 'wellbore_interp' not in z:
        _organize(m, z, crs, tag)
    if 'regular_grid' not in z:
        _grid(m, z, crs, tag)
    d = rqw.MdDatum(m, crs_uuid = crs.uuid, location = (10.0, 15.0, 0.0), md_reference = 'kelly bushing', title = 'kb' + tag)
    d.create_xml()
    z['md_datum'] = d.uuid
    wi = rqo.WellboreInterpretation(m, uuid = z['wellbore_interp'])
    ds = rqw.DeviationSurvey(m, title = 'survey' + tag, represented_interp = wi, md_datum = d,
                             measured_depths = np.array([0.0, 50.0, 120.0]), azimuths = np.array([0.0, 10.0, 20.0]),
                             inclinations = np.array([0.0, 5.0, 15.0]), station_count = 3,
                             first_station = (10.0, 15.0, 0.0), is_final = True)
    ds.write_hdf5()
    ds.create_xml()
    z['deviation_survey'] = ds.uuid
    t = rqw.Trajectory(m, md_datum = d, crs_uuid = crs.uuid, represented_interp = wi, well_name = 'well A' + tag,
                       mds = np.array([0.0, 60.0, 110.0]), length_uom = 'm',
                       control_points = np.array([(10.0, 15.0, 0.0), (11.0, 16.0, 60.0), (12.0, 30.0, 108.0)]),
                       set_tangent_vectors = True)
    t.write_hdf5()
    t.create_xml()
    z['trajectory'] = t.uuid
    f = rqw.WellboreFrame(m, trajectory = t, mds = np.array([10.0, 20.0, 40.0]), represented_interp = wi, title = 'frame' + tag)
    f.write_hdf5()
    f.create_xml()
    z['wellbore_frame'] = f.uuid
    import resqpy.property as rqp
    z['log'] = rqp.Property.from_array(m, np.array([1.5, np.nan, 3.0]), 'log', 'GR' + tag, f.uuid, property_kind = 'gamma ray API unit',
                                       uom = 'gAPI', indexable_element = 'nodes').uuid
    import resqpy.grid as grr
    g = m.grid(uuid = z['regular_grid'])
    bw = rqw.BlockedWell(m, grid = g, trajectory = t, well_name = 'well A' + tag, represented_interp = wi)
    bw.write_hdf5()
    bw.create_xml()
    z['blocked_well'] = bw.uuid
    import pandas as pd
    mf = rqw.WellboreMarkerFrame.from_dataframe(
        m,
        t.uuid,
        pd.DataFrame({
            'MD': [15.0, 55.0],
            'Boundary_Feature_Type': ['horizon', 'fault'],
            'Marker_Citation_Title': ['top', 'base'],
            'Interp_Citation_Title': ['hi' + tag, 'fi' + tag]
        }),
        title = 'markers' + tag)
    mf.write_hdf5()
    mf.create_xml()
    z['marker_frame'] = mf.uuid


def _surface(m, z, crs, tag):
    import resqpy.surface as rqs
    pts = np.array([(0.0, 0.0, 10.0), (10.0, 0.0, 11.0), (0.0, 10.0, 12.0), (10.0, 10.0, 14.0)])
    ps = rqs.PointSet(m, points_array = pts, crs_uuid = crs.uuid, title = 'points' + tag)
    ps.write_hdf5()
    ps.create_xml()
    z['point_set'] = ps.uuid
    s = rqs.Surface(m, title = 'surf' + tag, crs_uuid = crs.uuid)
    s.set_from_triangles_and_points(np.array([(0, 1, 2), (1, 3, 2)]), pts)
    s.write_hdf5()
    s.create_xml()
    z['surface'] = s.uuid
    me = rqs.Mesh(m, mesh_flavour = 'explicit', xyz_values = pts.reshape((2, 2, 3)), nj = 2, ni = 2, crs_uuid = crs.uuid,
                  title = 'mesh' + tag)
    me.write_hdf5()
    me.create_xml()
    z['mesh'] = me.uuid
    mr = rqs.Mesh(m, mesh_flavour = 'regular', nj = 3, ni = 2, origin = (0.0, 0.0, 1.0),
                  dxyz_dij = np.array([(1.0, 0.0, 0.0), (0.0, 2.0, 0.0)]), crs_uuid = crs.uuid, title = 'lattice' + tag)
    mr.create_xml()
    z['mesh_regular'] = mr.uuid
    mz = rqs.Mesh(m, mesh_flavour = 'ref&z', z_values = np.arange(6.0).reshape((3, 2)), z_supporting_mesh_uuid = mr.uuid,
                  nj = 3, ni = 2, crs_uuid = crs.uuid, title = 'ref z' + tag)
    mz.write_hdf5()
    mz.create_xml()
    z['mesh_ref'] = mz.uuid
    tm = rqs.TriMesh(m, t_side = 10.0, nj = 3, ni = 2, origin = (0.0, 0.0, 0.0), z_values = np.arange(6.0).reshape((3, 2)),
                     crs_uuid = crs.uuid, title = 'tri mesh' + tag)
    tm.write_hdf5()
    tm.create_xml()
    z['tri_mesh'] = tm.uuid


def _lines(m, z, crs, tag):
    import resqpy.lines as rql
    a = rql.Polyline(m, set_coord = np.array([(0.0, 0.0, 0.0), (5.0, 0.0, 1.0), (5.0, 5.0, 2.0)]), set_crs = crs.uuid,
                     is_closed = True, title = 'closed' + tag)
    a.write_hdf5()
    a.create_xml()
    z['polyline'] = a.uuid
    b = rql.Polyline(m, set_coord = np.array([(1.0, 0.0, 0.0), (2.0, 0.0, 1.0)]), set_crs = crs.uuid, is_closed = False,
                     title = 'open' + tag)
    b.write_hdf5()
    b.create_xml()
    z['polyline2'] = b.uuid
    s = rql.PolylineSet(m, polylines = [a, b], title = 'set' + tag)
    s.write_hdf5()
    s.create_xml()
    z['polyline_set'] = s.uuid


def _unstructured(m, z, crs, tag):
    import resqpy.unstructured as rug
    if 'split_grid' not in z:
        _grid(m, z, crs, tag)
    import resqpy.rq_import as rqi
    u = rqi.grid_from_cp(m, corner_points(throw = 0.0), crs.uuid, ijk_handedness = 'right')
    u.title = 'unsplit' + tag
    u.write_hdf5()
    u.create_xml()
    z['unsplit_grid'] = u.uuid
    h = rug.HexaGrid.from_unsplit_grid(m, u.uuid, inherit_properties = False, title = 'hexa' + tag)
    z['hexa_grid'] = h.uuid
    t = rug.TetraGrid.from_unstructured_cell(h, 3, title = 'tetra' + tag)
    t.write_hdf5()
    t.create_xml()
    z['tetra_grid'] = t.uuid


def _gcs(m, z, crs, tag):
    import resqpy.fault as rqf
    if 'split_grid' not in z:
        _grid(m, z, crs, tag)
    g = m.grid(uuid = z['split_grid'])
    j = np.zeros((2, 1, 2), dtype = bool)
    j[1, 0, 0] = True
    i = np.zeros((2, 2, 1), dtype = bool)
    i[:, :, 0] = True
    s = rqf.GridConnectionSet(m, grid = g, j_faces = j, i_faces = i, feature_name = 'fault X' + tag, feature_type = 'fault',
                              create_organizing_objects_where_needed = True, title = 'gcs' + tag,
                              create_transmissibility_multiplier_property = False)
    s.write_hdf5()
    s.create_xml()
    z['gcs'] = s.uuid


def _frame(m, z, crs, tag):
    import pandas as pd
    from resqpy.olio.dataframe import DataFrame
    from resqpy.olio.relperm import RelPerm
    d = DataFrame(m, df = pd.DataFrame({'A': [1.0, 2.0], 'B': [3.5, np.nan]}), uom_list = ['m', 'ft'], title = 'df' + tag)
    d.write_hdf5_and_create_xml()
    z['dataframe'] = m.uuid(obj_type = 'Grid2dRepresentation', title = 'df' + tag)
    r = RelPerm(m, df = pd.DataFrame({'Sw': [0.2, 0.6, 1.0], 'Krw': [0.0, 0.3, 1.0], 'Kro': [1.0, 0.2, 0.0]}),
                uom_list = ['Euc', 'Euc', 'Euc'], phase_combo = 'water-oil', title = 'rp' + tag)
    r.write_hdf5_and_create_xml()
    z['relperm'] = m.uuid(obj_type = 'Grid2dRepresentation', title = 'rp' + tag)
