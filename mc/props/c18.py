"""C18: questions asked of an object do not change it, nor the answers to questions asked later.

For an object of each class re-opened from file (or just built), every ordered pair (thorough: triple) of about sixty queries is
put to a fresh object.  The answer to the later query must be the one that a fresh object gives, the answer given earlier must
be the same afterwards, and the model (its parts and their xml) must be as before."""

import itertools
import os

import numpy as np

from mc import ijk, rq, zoo
from mc.core import about, expect
from mc.props.c15 import KINDS

ID = 'C18'
TITLE = 'Queries do not change an object, later answers, earlier answers or the model'
BOUNDS = dict(quick = 'all ordered pairs of up to 75 queries of 22 objects of 16 classes', thorough = 'and all ordered triples of the (caching) queries')


def V(x):
    """A value which can be compared, detached from the thing returned."""
    import pandas as pd
    if isinstance(x, np.ma.MaskedArray):
        m = np.ma.getmaskarray(x).copy()
        return ('masked', m, np.where(m, 0, np.array(x.filled(0))) if x.dtype.kind in 'biuf' else None)
    if isinstance(x, np.ndarray):
        return ('array', x.dtype.kind, x.copy())
    if isinstance(x, pd.DataFrame):
        return ('frame', tuple(map(str, x.columns)), [[repr(v) if not isinstance(v, (float, np.floating)) else float(v) for v in r] for r in x.values.tolist()])
    if isinstance(x, dict):
        return ('dict', [(V(k), V(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ('seq', [V(v) for v in x])
    if isinstance(x, (np.integer, int)) and not isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        return float(x)
    if x is None or isinstance(x, (bool, np.bool_, str, bytes)):
        return x if not isinstance(x, np.bool_) else bool(x)
    if hasattr(x, 'node_list') or hasattr(x, 'tag'):
        return ('node', str(getattr(x, 'tag', '')))
    return ('object', type(x).__name__)


def eq(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape:
            return False
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            return bool(np.allclose(a, b, rtol = 1.0e-7, atol = 1.0e-9, equal_nan = True))
        return bool(np.array_equal(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(b, (int, float)) and isinstance(a, (int, float)) and bool(np.isclose(a, b, rtol = 1.0e-7, atol = 1.0e-9, equal_nan = True))
    return type(a) is type(b) and a == b


def ask(q, o):
    """The raw answer; a refusal (an exception raised deliberately or not) is an answer too."""
    try:
        return q(o)
    except Exception as e:
        return ('refused', type(e).__name__)


def gcs_of(s):
    if s is None:
        return None
    if isinstance(s, tuple):
        return tuple(gcs_of(x) if x is not None and hasattr(x, 'cell_index_pairs') else x for x in s)
    s.cache_arrays()
    return (s.count, s.cell_index_pairs, s.face_index_pairs, s.feature_indices)


def surf_of(s):
    return None if s is None else s.triangles_and_points()


# ------------------------------------------------------------------------------------------------------------- grids

def corp_text(g, path, **kw):
    g.write_nexus_corp(path, **kw)
    with open(path) as f:
        t = [l for l in f if not l.lstrip().startswith('!')]
    os.unlink(path)
    return ''.join(t)


def plain(g):
    return not g.has_split_coordinate_lines and not g.k_gaps


def grid_queries(ctx, g):
    nk, nj, ni = g.extent_kji
    c = (nk - 1, nj - 1, 0)
    d = (0, 0, ni - 1)
    corp = ctx.path('x.corp')
    q = {
        'cell count': lambda g: [g.cell_count(), g.cell_count(active_only = True), g.cell_count(geometry_defined_only = True)],
        'cell count pinched': lambda g: g.cell_count(non_pinched_out_only = True),
        'natural indices': lambda g: g.natural_cell_indices(np.array([c, d])),
        'pillar shape': lambda g: g.actual_pillar_shape(),
        'off handed': lambda g: g.off_handed(),
        'xy units': lambda g: [g.xy_units(), g.z_units(), g.z_inc_down()],
        'skin': lambda g: None if g.k_gaps else g.skin().is_regular,
        'section i': lambda g: g.x_section_points('I', ref_slice0 = 0) if plain(g) else None,
        'section j face': lambda g: g.x_section_points('J', ref_slice0 = nj - 1, plus_face = True) if plain(g) else None,
        'cell defined': lambda g: g.cell_geometry_is_defined(c),
        'cells defined': lambda g: g.cell_geometry_is_defined_ref(),
        'pillar defined': lambda g: g.pillar_geometry_is_defined((nj, 0)),
        'pillars defined': lambda g: g.pillar_geometry_is_defined_ref(),
        'all cells defined': lambda g: g.geometry_defined_for_all_cells(),
        'all pillars defined': lambda g: g.geometry_defined_for_all_pillars(),
        'faults': lambda g: (g.find_faults(), g.fault_dict)[1],
        'throws': lambda g: g.fault_throws(),
        'throws per edge': lambda g: g.fault_throws_per_edge_per_column(),
        'transmissibility': lambda g: g.transmissibility(),
        'half cell': lambda g: g.half_cell_transmissibility(),
        'attributes': lambda g: [g.extract_extent_kji(), g.extract_grid_is_right_handed(), g.extract_k_direction_is_down(), g.extract_geometry_time_index(),
                                 str(g.extract_crs_uuid()), g.extract_pillar_shape(), g.extract_has_split_coordinate_lines(), g.extract_parent()],
        'k gaps': lambda g: [g.extract_k_gaps()[0]] + [g.k_raw_index_array],
        'inactive mask': lambda g: g.extract_inactive_mask(),
        'split face': lambda g: g.is_split_column_face(0, 0, 1, 1),
        'split faces': lambda g: g.split_column_faces(),
        'face centre': lambda g: g.face_centre(c, 1, 1),
        'face centres': lambda g: g.face_centres_kji_01(d),
        'point raw': lambda g: g.point_raw(index = (0,) + (0,) * (1 if g.has_split_coordinate_lines else 2)),
        'point raw uncached': lambda g: g.point_raw(index = (1,) + (1,) * (1 if g.has_split_coordinate_lines else 2), cache_array = False),
        'point': lambda g: g.point(c, corner_index = np.array((1, 1, 0))),
        'points': lambda g: g.points_ref(masked = False),
        'points masked': lambda g: g.points_ref(masked = True),
        'unsplit points': lambda g: g.unsplit_points_ref(),
        'unsplit points cached': lambda g: g.unsplit_points_ref(cache_array = True),
        'horizon': lambda g: g.horizon_points(ref_k0 = nk - 1, kp = 1),
        'horizon healed': lambda g: g.horizon_points(heal_faults = True),
        'split horizon': lambda g: g.split_horizon_points(ref_k0 = nk - 1),
        'split horizon masked': lambda g: g.split_horizon_points(masked = True),
        'split horizons': lambda g: g.split_horizons_points(),
        'split section': lambda g: g.split_x_section_points('J', ref_slice0 = 0) if not g.k_gaps else None,
        'split gap section': lambda g: g.split_gap_x_section_points('I', ref_slice0 = 0) if g.k_gaps else None,
        'unsplit section': lambda g: g.unsplit_x_section_points('I', ref_slice0 = ni - 1) if plain(g) else None,
        'section corners': lambda g: g.x_section_corner_points('I', ref_slice0 = 0),
        'section corners rotated': lambda g: g.x_section_corner_points('J', ref_slice0 = nj - 1, rotate = True, azimuth = 30.0),
        'line ends': lambda g: g.coordinate_line_end_points(),
        'z of corners': lambda g: g.z_corner_point_depths(),
        'z of corners linear': lambda g: g.z_corner_point_depths(order = 'linear'),
        'corners': lambda g: g.corner_points(),
        'corners cached': lambda g: g.corner_points(cache_cp_array = True),
        'corners of one': lambda g: g.corner_points(c),
        'corners of one cached': lambda g: g.corner_points(d, cache_cp_array = True),
        'corners uncached': lambda g: g.corner_points(c, cache_resqml_array = False),
        'centre': lambda g: g.centre_point(c),
        'centres': lambda g: g.centre_point(),
        'centres cached': lambda g: g.centre_point(cache_centre_array = True),
        'centre list': lambda g: g.centre_point_list(np.array([c, d])),
        'areal points': lambda g: g.point_areally(),
        'interpolated': lambda g: g.interpolated_point(c, (0.2, 0.5, 0.9)),
        'interpolated points': lambda g: g.interpolated_points(c, (np.array([0.0, 0.5]), np.array([0.5]), np.array([0.1, 1.0]))),
        'find cell': lambda g: g.find_cell_for_point_xy(13.1, 8.2),
        'pillar mapping': lambda g: g.create_column_pillar_mapping(),
        'foursome': lambda g: g.pillar_foursome((0, 0)),
        'pillar distances': lambda g: g.pillar_distances_sqr((3.0, 4.0)),
        'nearest pillar': lambda g: g.nearest_pillar((3.0, 14.0)),
        'cell polygon': lambda g: g.poly_line_for_cell(c),
        'interface lengths': lambda g: g.interface_lengths_kji(c),
        'interface vectors': lambda g: g.interface_vectors_kji(c),
        'inactive cell': lambda g: g.cell_inactive(c),
        'pinched': lambda g: g.pinched_out(c),
        'pinched all': lambda g: g.pinched_out(),
        'pinched all cached': lambda g: g.pinched_out(tolerance = 5.0, cache_pinchout_array = True),
        'volume': lambda g: g.volume(c),
        'volumes': lambda g: g.volume(),
        'volumes ft3': lambda g: g.volume(required_uom = 'ft3'),
        'thickness': lambda g: g.thickness(c),
        'thicknesses': lambda g: g.thickness(cache_thickness_array = True),
        'fault connections': lambda g: gcs_of(g.fault_connection_set()),
        'fault connections active or not': lambda g: gcs_of(g.fault_connection_set(skip_inactive = False)),
        'pinchout connections': lambda g: gcs_of(g.pinchout_connection_set()),
        'k gap connections': lambda g: gcs_of(g.k_gap_connection_set()),
        'edge directions': lambda g: g.check_top_and_base_cell_edge_directions(),
        'box': lambda g: (g.xyz_box(local = True), None)[1],  # may be better when the thorough box is known
        'box thorough': lambda g: g.xyz_box(lazy = False),
        'box centre': lambda g: g.xyz_box_centre(),
        'box of a cell': lambda g: g.bounding_box(c),
        'pixels': lambda g: g.pixel_maps((-3.0, -3.0), 6, 6, 7.0),
        'corp': lambda g: corp_text(g, corp, local_coords = True),
        'corp in feet': lambda g: corp_text(g, corp, global_xy_units = 'ft', global_z_units = 'ft', global_z_increasing_downward = False),
        'uncache': lambda g: g.uncache_points(),
        'invalidate': lambda g: g.invalidate_corner_points(),
        'cache all': lambda g: g.cache_all_geometry_arrays(),
        'properties': lambda g: [str(u) for u in g.extract_property_collection().uuids()],
    }
    if g.root is None:
        for n in ('transmissibility', 'half cell', 'properties', 'uncache'):
            del q[n]
    return q


def surface_queries(ctx, s):
    q = {
        'patches': lambda s: s.number_of_patches(),
        'crs': lambda s: str(s.crs_uuid),
        'interpretation': lambda s: str(s.represented_interpretation_uuid),
        'last patch': lambda s: s.triangles_and_points(patch = s.number_of_patches() - 1),
        'counts of last patch': lambda s: [s.triangle_count(patch = s.number_of_patches() - 1), s.node_count(patch = s.number_of_patches() - 1)],
        'edges of last patch': lambda s: s.distinct_edges(patch = s.number_of_patches() - 1),
        'normals of last patch': lambda s: s.normal_vectors(patch = s.number_of_patches() - 1),
        'triangles': lambda s: s.triangles_and_points(),
        'triangles copied': lambda s: s.triangles_and_points(copy = True),
        'triangle count': lambda s: s.triangle_count(),
        'node count': lambda s: s.node_count(),
        'edges': lambda s: s.distinct_edges(),
        'edges and counts': lambda s: s.distinct_edges_and_counts(),
        'lengths': lambda s: s.edge_lengths(),
        'lengths ft': lambda s: s.edge_lengths(required_uom = 'ft'),
        'adjusted': lambda s: s.unit_adjusted_points(),
        'normal': lambda s: s.normal(),
        'normals': lambda s: s.normal_vectors(),
        'line': lambda s: s.line_intersection(np.array((2.0, 2.0, 0.0)), np.array((0.0, 0.0, 1.0))),
        'z at': lambda s: s.sample_z_at_xy_points(np.array([(2.0, 3.0), (4.0, 1.0)])),
        'crossings': lambda s: s.axial_edge_crossings(2, 11.5),
        'resampled': lambda s: surf_of(s.resampled_surface()),
        'patch 0': lambda s: s.triangles_and_points(patch = 0),
        'patch triangle count': lambda s: s.triangle_count(patch = 0),
        'decache': lambda s: s.decache_triangles_and_points(),
    }
    return q


def mesh_queries(ctx, s):
    return {
        'array': lambda s: s.full_array_ref(),
        'big': lambda s: s.is_big(),
        'surface': lambda s: surf_of(s.surface()),
        'surface quad': lambda s: surf_of(s.surface(quad_triangles = True)),
        'attributes': lambda s: [s.nj, s.ni, s.flavour, str(s.crs_uuid)],
    }


def tri_mesh_queries(ctx, s):
    xy = np.array([(3.0, 2.0), (9.0, 10.0), (-4.0, 1.0)])
    q = mesh_queries(ctx, s)
    q.update({
        'tji': lambda s: s.tji_for_xy((6.0, 3.0)),
        'tji array': lambda s: s.tji_for_xy_array(xy),
        'tji tc': lambda s: s.tji_tc_for_xy((6.0, 3.0)),
        'tji tc array': lambda s: s.tji_tc_for_xy_array(xy),
        'weights': lambda s: s.ji_and_weights_for_xy((6.0, 3.0)),
        'weights array': lambda s: s.ji_and_weights_for_xy_array(xy),
        'z': lambda s: s.interpolated_z((6.0, 3.0)),
        'z array': lambda s: s.interpolated_z_array(xy),
        'nodes': lambda s: s.tri_nodes_for_tji((1, 1)),
        'all nodes': lambda s: s.all_tri_nodes(),
        'triangles': lambda s: s.triangles_and_points(),
        'for index': lambda s: s.tji_for_triangle_index(2),
        'index for': lambda s: s.triangle_index_for_tji((1, 1)),
        'in triangles': lambda s: s.tri_nodes_in_triangles(np.array([[(-1.0, -1.0), (30.0, 0.0), (4.0, 25.0)], [(3.0, 3.0), (12.0, 4.0), (6.0, 14.0)]])),
        'zero crossings': lambda s: s.edge_zero_crossings(np.arange(6.0).reshape((3, 2)) - 2.5),
        'crossings': lambda s: s.axial_edge_crossings(2, 2.5),
        'crossings x': lambda s: s.axial_edge_crossings(0, 4.5),
        'compatible': lambda s: s.is_compatible_with(s),
    })
    return q


def point_set_queries(ctx, s):
    return {
        'patch': lambda s: s.single_patch_array_ref(0),
        'last patch': lambda s: s.single_patch_array_ref(s.patch_count - 1),
        'load': lambda s: s.load_all_patches(),
        'array': lambda s: s.full_array_ref(),
        'rectangle': lambda s: s.minimum_xy_area_rectangle(),
        'attributes': lambda s: [s.patch_count, str(s.crs_uuid), [str(x) for x in s.patch_ref_list]][:2],
        'properties': lambda s: s.extract_property_collection() is None,
    }


def polyline_queries(ctx, s):
    p = np.array((3.0, 1.0))
    q = {
        'coordinates': lambda s: s.coordinates,
        'convex': lambda s: s.is_convex(trust_metadata = False),
        'convex meta': lambda s: s.is_convex(),
        'clockwise': lambda s: s.is_clockwise(trust_metadata = False),
        'clockwise meta': lambda s: s.is_clockwise(),
        'inside': lambda s: s.point_is_inside_xy(p),
        'inside winding': lambda s: s.point_is_inside_xy(p, mode = 'winding'),
        'inside array': lambda s: s.points_are_inside_xy(np.array([p, p + 50.0])),
        'length of segment': lambda s: s.segment_length(0),
        'length of segment xy': lambda s: s.segment_length(1, in_xy = True),
        'midpoint': lambda s: s.segment_midpoint(0),
        'normal': lambda s: s.segment_normal(0),
        'length': lambda s: s.full_length(),
        'length xy': lambda s: s.full_length(in_xy = True),
        'point': lambda s: s.interpolated_point(0.3),
        'point xy': lambda s: s.interpolated_point(0.3, in_xy = True),
        'equidistant': lambda s: s.equidistant_points(5),
        'equidistant xy': lambda s: s.equidistant_points(5, in_xy = True),
        'centre': lambda s: s.balanced_centre(),
        'centre xy': lambda s: s.balanced_centre(in_xy = True),
        'centre sampled': lambda s: s.balanced_centre(mode = 'sampled', n = 7),
        'centre uncached': lambda s: s.balanced_centre(cache = False),
        'first crossing': lambda s: s.first_line_intersection(-1.0, -1.0, 9.0, 4.0),
        'closest': lambda s: s.closest_segment_and_distance_to_point_xy(p),
        'snapped': lambda s: s.point_snapped_to_segment_xy(0, p),
        'z of': lambda s: s.segment_xyz_from_xy(0, 2.5, 0.0),
        'crossings': lambda s: s.xy_crossings(s),
        'normalised': lambda s: s.normalised_xy(4.0, 1.0),
        'normalised circle': lambda s: s.normalised_xy(4.0, 1.0, mode = 'circle'),
        'denormalised': lambda s: s.denormalised_xy(0.4, 0.6, mode = 'square'),
        'tangents': lambda s: s.tangent_vectors(),
        'splined': lambda s: s.splined().coordinates,
        'area': lambda s: s.area(),
        'bool': lambda s: [s.isclosed, s.nodepatch],
        'properties': lambda s: s.extract_property_collection() is None,
    }
    if not s.isclosed:
        for n in ('clockwise', 'clockwise meta', 'inside', 'inside winding', 'inside array', 'normal', 'normalised', 'normalised circle', 'denormalised', 'area'):
            del q[n]
        q['length of segment xy'] = lambda s: s.segment_length(0, in_xy = True)
        q['z of'] = lambda s: s.segment_xyz_from_xy(0, 1.5, 0.0)
    return q


def polyline_set_queries(ctx, s):
    return {
        'coordinates': lambda s: s.coordinates,
        'index': lambda s: s.poly_index_containing_point_in_xy(np.array((4.0, 1.0))),
        'lines': lambda s: [p.coordinates for p in s.polys],
        'closed': lambda s: [s.closed_array, s.count_perpol, [bool(p.isclosed) for p in s.polys]],
        'bool format': lambda s: s.bool_array_format(),
        'converted': lambda s: [p.coordinates for p in s.convert_to_polylines(s.closed_array, s.count_perpol, s.coordinates, s.crs_uuid, None)],
        'title': lambda s: s.title,
        'properties': lambda s: s.extract_property_collection() is None,
    }


def trajectory_queries(ctx, s):
    return {
        'points': lambda s: s.control_points,
        'mds': lambda s: s.measured_depths,
        'tangents': lambda s: s.tangent_vectors,
        'set tangents': lambda s: s.set_tangents(),
        'dataframe': lambda s: s.dataframe(),
        'xyz': lambda s: s.xyz_for_md(40.0),
        'xyz end': lambda s: s.xyz_for_md(110.0),
        'xyz outside': lambda s: s.xyz_for_md(1100.0),
        'inclinations': lambda s: s.inclinations(),
        'splined': lambda s: [s.splined_trajectory('new', store_tangents_if_calculated = False).control_points],
        'splined without': lambda s: [s.splined_trajectory('new', use_tangents_if_present = False, store_tangents_if_calculated = False).control_points],
        'frames': lambda s: [str(f.uuid) for f in s.iter_wellbore_frames()],
        'datum': lambda s: [s.md_datum.location, s.md_datum.md_reference, str(s.crs_uuid), s.md_uom, s.md_domain],
    }


def survey_queries(ctx, s):
    return {
        'arrays': lambda s: [s.measured_depths, s.azimuths, s.inclinations],
        'first': lambda s: [s.first_station, s.angle_uom, s.md_uom, s.station_count, s.is_final],
        'datum': lambda s: s.md_datum.location,
        'same': lambda s: s.is_equivalent(s) if hasattr(s, 'is_equivalent') else None,
    }


def datum_queries(ctx, s):
    return {
        'location': lambda s: s.location,
        'crs': lambda s: str(s.extract_crs_uuid()),
        'same': lambda s: s.is_equivalent(s),
        'reference': lambda s: s.md_reference,
    }


def blocked_well_queries(ctx, s):
    return {
        'map': lambda s: s.map_cell_and_grid_indices(),
        'grids': lambda s: [s.number_of_grids(), [str(u) for u in s.grid_uuid_list()]],
        'single grid': lambda s: str(s.single_grid().uuid),
        'interval': lambda s: s.interval_for_cell(0),
        'interval last': lambda s: s.interval_for_cell(s.cell_count - 1),
        'mds': lambda s: s.entry_and_exit_mds(0),
        'compressed': lambda s: s.compressed_grid_indices(),
        'cells': lambda s: s.cell_indices_kji0(),
        'cells and grids': lambda s: [(c, str(g.uuid)) for c, g in zip(*s.cell_indices_and_grid_list())],
        'cells for': lambda s: s.cell_indices_for_grid_uuid(s.grid_uuid_list()[0]),
        'box': lambda s: s.box(),
        'faces': lambda s: s.face_pair_array(),
        'dataframe': lambda s: s.dataframe(),
        'dataframe more': lambda s: s.dataframe(extra_columns_list = ['ANGLA', 'ANGLV', 'LENGTH', 'X', 'Y', 'DEPTH', 'RADW', 'GRID']),
        'dataframe zero based': lambda s: s.dataframe(one_based = False, extra_columns_list = ['LENGTH'], length_uom = 'ft', use_face_centres = True),
        'cell at': lambda s: s.wb_cell_for_md(40.0),
        'marker': lambda s: s.kji0_marker(),
        'marker xyz': lambda s: s.xyz_marker(),
        'trajectory': lambda s: s.trajectory.control_points,
        'node mds': lambda s: [s.node_mds, s.node_count, s.cell_count, s.cell_indices, s.grid_indices, s.face_pair_indices],
        'properties': lambda s: s.extract_property_collection() is None,
    }


def frame_queries(ctx, s):
    return {
        'mds': lambda s: s.node_mds,
        'crs': lambda s: str(s.extract_crs_uuid()),
        'properties': lambda s: s.extract_property_collection().titles(),
        'logs': lambda s: s.extract_log_collection().to_df().reset_index(),
        'interval': lambda s: s.interval_for_md(15.0) if hasattr(s, 'interval_for_md') else None,
    }


def unstructured_queries(ctx, s):
    c, f = s.cell_count - 1, s.face_count - 1
    skip = np.zeros(s.cell_count, dtype = bool)
    skip[0] = True
    return {
        'cache all': lambda s: s.cache_all_geometry_arrays(),
        'active': lambda s: s.active_cell_count(),
        'inactive mask': lambda s: s.extract_inactive_mask(),
        'crs': lambda s: str(s.extract_crs_uuid()),
        'cells per face': lambda s: (s.set_cells_per_face(), None)[1],
        'external': lambda s: s.external_face_indices(),
        'external of some': lambda s: s.external_face_indices_for_masked_cells(skip),
        'internal of some': lambda s: s.internal_face_indices_for_masked_cells(skip),
        'masked': lambda s: s.masked_cells_per_face(skip),
        'points': lambda s: s.points_ref(),
        'box': lambda s: s.xyz_box(),
        'face centre': lambda s: s.face_centre_point(f),
        'faces of cell': lambda s: s.face_count_for_cell(c),
        'most faces': lambda s: s.max_face_count_for_any_cell(),
        'nodes of face': lambda s: s.node_count_for_face(f),
        'most nodes': lambda s: s.max_node_count_for_any_face(),
        'node indices': lambda s: s.node_indices_for_face(f),
        'node indices of cell': lambda s: s.distinct_node_indices_for_cell(c),
        'face indices': lambda s: s.face_indices_for_cell(c),
        'handedness': lambda s: s.face_indices_and_handedness_for_cell(c),
        'edges of face': lambda s: s.edges_for_face(f),
        'ordered edges': lambda s: s.edges_for_face_with_node_indices_ordered_within_pairs(f),
        'edges of cell': lambda s: s.distinct_edges_for_cell(c),
        'face centres': lambda s: s.cell_face_centre_points(c),
        'normal': lambda s: s.face_normal(f),
        'planar': lambda s: s.planar_face_points(f),
        'planar xy': lambda s: s.planar_face_points(f, xy_plane = True),
        'triangulation': lambda s: s.face_triangulation(f),
        'area': lambda s: s.area_of_face(f),
        'area in plane': lambda s: s.area_of_face(f, in_plane = True),
        'cell centre': lambda s: s.cell_centre_point(c),
        'centre': lambda s: s.centre_point(c),
        'centres': lambda s: s.centre_point(cache_centre_array = True),
        'volume': lambda s: s.volume(c),
        'check': lambda s: s.check_indices(),
        'units': lambda s: [s.xy_units(), s.z_units()],
        'properties': lambda s: s.extract_property_collection().titles(),
    }


def gcs_queries(ctx, s):
    q = {'pairs': lambda s: gcs_of(s), 'count': lambda s: s.count, 'cache': lambda s: s.cache_arrays()}
    for name, f in {
            'features': lambda s: s.list_of_feature_names(),
            'fault names': lambda s: s.list_of_fault_names(),
            'number': lambda s: s.number_of_grids(),
            'grid for': lambda s: str(s.grid_for_index(0).uuid) if hasattr(s, 'grid_for_index') else None,
            'feature pairs': lambda s: s.raw_list_of_cell_face_pairs_for_feature_index(0),
            'faces of': lambda s: s.list_of_cell_face_pairs_for_feature_index(0),
            'name of': lambda s: s.feature_name_for_feature_index(0),
            'index of': lambda s: s.feature_index_and_uuid_for_fault_name('fault X'),
            'inherited': lambda s: s.get_combined_fault_mask_index_value_arrays(),
            'simplified': lambda s: s.get_column_edge_list_for_feature(0),
            'properties': lambda s: s.extract_property_collection().titles(),
    }.items():
        q[name] = f
    return q


def collection_queries(ctx, s):
    part = s.singleton(citation_title = 'POR')
    return {
        'parts': lambda s: s.parts(),
        'titles': lambda s: s.titles(),
        'kinds': lambda s: s.property_kind_list(sort_list = True),
        'facets': lambda s: [s.facet_for_part(p) for p in s.parts()],
        'array': lambda s: s.cached_part_array_ref(part),
        'array masked': lambda s: s.cached_part_array_ref(part, masked = True),
        'array excluding': lambda s: s.cached_part_array_ref(part, masked = True, exclude_null = True),
        'normalised': lambda s: s.normalized_part_array(part),
        'normalised log': lambda s: s.normalized_part_array(part, use_logarithm = True),
        'normalised fixed': lambda s: s.normalized_part_array(part, fix_zero_at = 0.25),
        'uncache': lambda s: s.uncache_part_array(part),
        'has facets': lambda s: s.has_multiple_realizations(),
        'realizations': lambda s: s.realization_list(sort_list = True),
        'uoms': lambda s: s.uom_list(sort_list = True),
        'statistics': lambda s: s.basic_static_property_parts_dict(),
        'singleton': lambda s: s.singleton(citation_title = s.citation_title_for_part(part)),
        'selective': lambda s: s.selective_parts_list(continuous = True),
        'selection': lambda s: __import__('resqpy.property', fromlist = ['x']).selective_version_of_collection(s, continuous = True).parts(),
        'all min max': lambda s: [s.minimum_value_for_part(p) for p in s.parts()],
        'all max': lambda s: [s.maximum_value_for_part(p) for p in s.parts()],
        'shape': lambda s: s.shape_and_type_of_part(part)[0],
        'h5 slice': lambda s: s.h5_slice(part, (slice(0, 1),) * len(s.shape_and_type_of_part(part)[0])),
    }


# ------------------------------------------------------------------------------------------------------------ objects

def perms(m, g):
    import resqpy.property as rqp
    a = 50.0 + np.arange(g.cell_count(), dtype = float).reshape(g.extent_kji)
    for n, d in enumerate('IJK'):
        rqp.Property.from_array(m, a * (n + 1), 'perms', 'perm ' + d, g.uuid, property_kind = 'permeability rock', uom = 'mD', facet_type = 'direction', facet = d)
    rqp.Property.from_array(m, np.full(g.extent_kji, 0.8), 'ntg', 'NTG', g.uuid, property_kind = 'net to gross ratio', uom = 'm3/m3')


def grid_case(kind, gap = False, holes = False, inactive = False, parametric = False, pinch = False, stored = True):

    def make(m):
        crs = rq.add_crs(m, x_offset = 100.0, y_offset = 5.0)
        s = ijk.Spec(2, 2, 2, parts = KINDS[kind](2, 2), gaps = (gap,), pinch = {(1, 0, 0)} if pinch else ())
        if holes:
            s = ijk.Spec(2, 2, 2, parts = KINDS[kind](2, 2), gaps = (gap,), holes = {((0, 0), 0, n) for n in range(3 + gap)})
        g = ijk.build(m, crs, s)
        if inactive:
            g.inactive = np.zeros((2, 2, 2), dtype = bool)
            g.inactive[1, 0, 1] = True
            g.all_inactive = False
        g.title = 'g'
        if not stored:
            return g
        ijk.store(g, parametric = parametric)
        perms(m, g)
        return g.uuid

    return make


def regular_case(**kw):

    def make(m):
        import resqpy.grid as grr
        crs = rq.add_crs(m)
        g = grr.RegularGrid(m, extent_kji = (2, 2, 3), dxyz = (10.0, 20.0, -3.0 if kw.get('up') else 3.0), origin = (1.0, 2.0, 300.0), crs_uuid = crs.uuid, title = 'g',
                            set_points_cached = kw.get('points', False))
        if kw.get('points', False):
            g.grid_representation = 'IjkGrid'
            g.write_hdf5()
            g.create_xml(write_geometry = True)
        else:
            g.create_xml()
        perms(m, g)
        return g.uuid

    return make


def zoo_case(section, name):

    def make(m):
        return zoo.build(m, [section])[name]

    return make


def patches_case(kind, stored):

    def make(m):
        import resqpy.surface as rqs
        crs = rq.add_crs(m)
        pts = np.array([(0.0, 0.0, 10.0), (10.0, 0.0, 11.0), (0.0, 10.0, 12.0), (10.0, 10.0, 14.0)])
        if kind == 'surface':
            s = rqs.Surface(m, title = 's', crs_uuid = crs.uuid)
            s.set_multi_patch_from_triangles_and_points([(np.array([(0, 1, 2), (1, 3, 2)]), pts), (np.array([(0, 1, 2)]), pts[:3] + 20.0), (np.array([(0, 2, 1)]), pts[:3] - 20.0)])
        else:
            s = rqs.PointSet(m, points_array = pts, crs_uuid = crs.uuid, title = 'p')
            s.add_patch(pts[:2] + 20.0)
            s.add_patch(pts[:3] - 20.0)
        if not stored:
            return s
        s.write_hdf5()
        s.create_xml()
        return s.uuid

    return make


def opener(cls):

    def op(m, uuid):
        mod, c = cls.rsplit('.', 1)
        return getattr(__import__(mod, fromlist = [c]), c)(m, uuid = uuid)

    return op


def collection(m, uuid):
    import resqpy.property as rqp
    return rqp.GridPropertyCollection(grid = m.grid(uuid = uuid))


GRID = opener('resqpy.grid.Grid')
OBJECTS = {
    'grid unsplit': (grid_case('unsplit'), GRID, grid_queries),
    'grid faulted': (grid_case('all apart', inactive = True), GRID, grid_queries),
    'grid line fault': (grid_case('a line'), GRID, grid_queries),
    'grid with gaps': (grid_case('unsplit', gap = True), GRID, grid_queries),
    'grid with gaps and faults': (grid_case('a line', gap = True), GRID, grid_queries),
    'grid with holes': (grid_case('unsplit', holes = True, inactive = True), GRID, grid_queries),
    'grid with pinched cells': (grid_case('a line', pinch = True, inactive = True), GRID, grid_queries),
    'grid parametric': (grid_case('a line', parametric = True), GRID, grid_queries),
    'regular grid': (regular_case(), opener('resqpy.grid.RegularGrid'), grid_queries),
    'regular grid up': (regular_case(up = True), opener('resqpy.grid.RegularGrid'), grid_queries),
    'regular grid with points': (regular_case(points = True), GRID, grid_queries),
    'surface': (zoo_case('surface', 'surface'), opener('resqpy.surface.Surface'), surface_queries),
    'surface of patches': (patches_case('surface', True), opener('resqpy.surface.Surface'), surface_queries),
    'surface of patches in session': (patches_case('surface', False), None, surface_queries),
    'point set of patches': (patches_case('point set', True), opener('resqpy.surface.PointSet'), point_set_queries),
    'point set of patches in session': (patches_case('point set', False), None, point_set_queries),
    'grid in session': (grid_case('a line', gap = True, stored = False), None, grid_queries),
    'unsplit grid in session': (grid_case('unsplit', inactive = True, stored = False), None, grid_queries),
    'point set': (zoo_case('surface', 'point_set'), opener('resqpy.surface.PointSet'), point_set_queries),
    'mesh': (zoo_case('surface', 'mesh'), opener('resqpy.surface.Mesh'), mesh_queries),
    'mesh regular': (zoo_case('surface', 'mesh_regular'), opener('resqpy.surface.Mesh'), mesh_queries),
    'mesh ref': (zoo_case('surface', 'mesh_ref'), opener('resqpy.surface.Mesh'), mesh_queries),
    'tri mesh': (zoo_case('surface', 'tri_mesh'), opener('resqpy.surface.TriMesh'), tri_mesh_queries),
    'polyline': (zoo_case('lines', 'polyline'), opener('resqpy.lines.Polyline'), polyline_queries),
    'open polyline': (zoo_case('lines', 'polyline2'), opener('resqpy.lines.Polyline'), polyline_queries),
    'polyline set': (zoo_case('lines', 'polyline_set'), opener('resqpy.lines.PolylineSet'), polyline_set_queries),
    'trajectory': (zoo_case('well', 'trajectory'), opener('resqpy.well.Trajectory'), trajectory_queries),
    'survey': (zoo_case('well', 'deviation_survey'), opener('resqpy.well.DeviationSurvey'), survey_queries),
    'datum': (zoo_case('well', 'md_datum'), opener('resqpy.well.MdDatum'), datum_queries),
    'blocked well': (zoo_case('well', 'blocked_well'), opener('resqpy.well.BlockedWell'), blocked_well_queries),
    'frame': (zoo_case('well', 'wellbore_frame'), opener('resqpy.well.WellboreFrame'), frame_queries),
    'hexa grid': (zoo_case('unstructured', 'hexa_grid'), opener('resqpy.unstructured.HexaGrid'), unstructured_queries),
    'tetra grid': (zoo_case('unstructured', 'tetra_grid'), opener('resqpy.unstructured.TetraGrid'), unstructured_queries),
    'connection set': (zoo_case('gcs', 'gcs'), opener('resqpy.fault.GridConnectionSet'), gcs_queries),
    'properties': (zoo_case('props', 'split_grid'), collection, collection_queries),
}
# queries which may be refused by a fresh object
REFUSED = set()


def warm(tier):
    import resqpy.model, resqpy.lines, resqpy.well, resqpy.surface, resqpy.unstructured, resqpy.fault, resqpy.grid  # noqa


def xml_of(m):
    from lxml import etree
    return {p: etree.tostring(m.root_for_part(p)) if m.root_for_part(p) is not None else None for p in m.parts()}


def run_seq(ctx, what, names, share = 0, of = 1, depth = 2):
    """All sequences which start with names."""
    make, op, table = OBJECTS[what]
    if op is None:  # object of the session: made anew each time
        op = lambda m, uuid: make(m)
    path = ctx.path('m.epc')
    m = rq.new_model(path, h5 = True)
    uuid = make(m) if OBJECTS[what][1] is not None else None
    if uuid is None:
        rq.add_crs(m)
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    qs = table(ctx, op(m, uuid))
    base = {}
    for n, q in qs.items():
        base[n] = V(ask(q, op(m, uuid)))
        expect(n in REFUSED or not (isinstance(base[n], tuple) and base[n][0] == 'seq' and len(base[n][1]) == 2 and isinstance(base[n][1][0], str) and
                                    base[n][1][0] == 'refused'), what, 'refuses query:', n, base[n])
    before = xml_of(m)
    ctx.state((what, names, tuple(str(b)[:60] for b in base.values())))
    last = qs if depth == 2 or len(qs) <= 60 else [n for n in qs if any(w in n for w in ('corner', 'points', 'volume', 'thick', 'pinched', 'horizon', 'centre', 'section'))]
    for rest in itertools.product(last, repeat = depth - 2 if depth == 3 else depth - 1):
        o = op(m, uuid)
        given = []
        for n in names + rest:
            a = ask(qs[n], o)
            v = V(a)
            if not eq(v, base[n]):
                expect(False, 'answer to:', n, 'after:', names + rest, 'is', str(v)[:400], 'rather than', str(base[n])[:400])
            given.append((n, a))
            ctx.step()
        for n, a in given:
            if n in ('uncache', 'decache'):
                continue
            expect(eq(V(a), base[n]), 'answer given to:', n, 'was changed by later queries:', names + rest)
    expect(OBJECTS[what][1] is None or xml_of(m) == before, 'model was changed by queries of', what, 'starting with', names)
    rq.close(m)
    ctx.outcome((what, len(qs)))


def names_of(ctx, what):
    make, op, table = OBJECTS[what]
    m = rq.new_model(ctx.path('n.epc'), h5 = True)
    uuid = make(m)
    m.store_epc()
    qs = list(table(ctx, uuid if op is None else op(m, uuid)))
    rq.close(m)
    return qs


def pairs(ctx, what, share, of):
    for k, n in enumerate(names_of(ctx, what)):
        if k % of == share:
            ctx.run(n, lambda: run_seq(ctx, what, (n,)))


def triples(ctx, what, share, of):
    names = names_of(ctx, what)
    if len(names) > 60:
        names = [n for n in names if any(w in n for w in ('cache', 'corner', 'points', 'invalidate', 'volume', 'thickness', 'pinched', 'horizon', 'centre'))]
    for k, (a, b) in enumerate(itertools.product(names, names)):
        if k % of == share:
            ctx.run((a, b), lambda: run_seq(ctx, what, (a, b), depth = 3))


def jobs(tier):
    js = []
    for w in OBJECTS:
        n = 4 if 'grid' in w else 1
        js += [(f'{w} {k}', pairs, dict(what = w, share = k, of = n)) for k in range(n)]
    if tier == 'thorough':
        for w in OBJECTS:
            n = 24 if 'grid' in w else 4
            js += [(f'{w} triples {k}', triples, dict(what = w, share = k, of = n)) for k in range(n)]
    return js
