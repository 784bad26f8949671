MC = 'resqpy/model/_model.py'
CAT = 'resqpy/model/_catalogue.py'
FOR = 'resqpy/model/_forestry.py'
H5F = 'resqpy/model/_hdf5.py'

P('C01', 'The catalogue of a model stays consistent under any history of part operations',
  'After any sequence of adding, relating, re-titling, re-referencing, copying and removing parts, and of storing and '
  're-opening the model, every query of the model reports exactly the parts and relationships which that history leaves '
  'in existence. Relationships are always symmetric and never name a removed part, and a removed part leaves no trace '
  'in the model or in the stored file. Each uuid, title, type and part name lookup agrees with every other one.',
  ['histories'], 'all histories of part operations (add, reference, soft relationship, change reference, retitle, copy, '
  'remove, patch, store and re-open) on a model, over parts related in every way',
  'The tests build one model each and exercise one operation; the bookkeeping (several dictionaries, the relationship '
  'xml, the uuid indices) goes wrong only for particular orders of operations on particular relation shapes.',
  [MC, CAT, FOR, 'resqpy/model/_xml.py'],
  [('parallel dictionaries updated together', CAT), ('reciprocal relationship creation and removal', 'resqpy/model/_xml.py'),
   ('part removal and duplication', FOR)],
  'explicit-state search over operation histories of the real Model against a reference catalogue',
  'Exhaustive within the stated alphabet and depth on the real implementation; every state is also stored and re-read by '
  'an independent zip / xml reader. Trusts the reference model (a dict of parts and a set of pairs).')

P('C02', 'Storing a model and opening it again gives back the same model',
  'Whatever a model contains, and however it is named or opened, storing it and opening the stored file yields the same '
  'parts, titles, metadata, references, relationships and arrays, and storing again adds or loses nothing. The stored '
  'package is always a well formed one: every listed part is present and listed once, with matching type and uuid. '
  'The context manager honours its mode: nothing is written in read mode, and failures do not store.',
  ['inputs', 'configurations', 'histories'], 'all texts, file names, object classes, and chains of store and open variants',
  'The tests store models with tame titles and names, once, in one way.',
  [MC, FOR, H5F, 'resqpy/model/_context.py', 'resqpy/olio/write_hdf5.py', 'resqpy/olio/xml_et.py',
   'resqpy/olio/base.py'],
  [('zip and xml serialisation', 'resqpy/olio/xml_et.py'), ('file name handling of paired files', MC),
   ('context manager', 'resqpy/model/_context.py')],
  'exhaustive enumeration of texts, names, contexts and store/open chains on the real code',
  'All strings up to the stated length over an alphabet of awkward characters in every text slot; all chains of '
  'store/open variants up to the stated length over a model with nearly every class. Comparison is by an independent reader.')

P('C03', 'Catalogue queries return exactly the parts meeting every given criterion',
  'Any combination of criteria (type, uuid, title and match mode, metadata, extra metadata, related object and direction, '
  'sub-directory, starting list) selects exactly the parts meeting all of them, and the results for parts, uuids, titles '
  'and xml roots describe the same parts in the same order. Sorting and the handling of multiple matches do what is asked, '
  'and the single-object forms agree with the list forms. The answers are the same for a model in memory, re-opened or '
  'lazily loaded.',
  ['inputs', 'configurations'], 'all combinations of query arguments over populations differing in type, case, prefix, '
  'metadata, relations, sub-directory and age',
  'The filter arguments interact; tests try a handful of combinations on one population.',
  [CAT, MC, 'resqpy/model/_grids.py', 'resqpy/model/_forestry.py'],
  [('cascade of filters', CAT), ('grid lookup', 'resqpy/model/_grids.py')],
  'exhaustive product of query arguments on the real catalogue against a naive evaluator',
  'Every combination in the stated product is executed on three incarnations of the population and compared with a naive '
  'evaluation of the specification.')

P('C04', 'Arrays written to the hdf5 store are read back unchanged by every route',
  'An array registered and written under any supported data type, chunking, compression and packing option is read back '
  'with the same values and shape whichever route is used: whole array, single element, leading index, slice, required '
  'shape, shape-and-type query. After any history of writes, overwrites, cached reads, releases and re-opens, a read '
  'returns what was last written. Copying hdf5 files or groups and changing uuids preserves exactly the selected content.',
  ['inputs', 'histories', 'configurations'], 'all array shapes, types and storage options; all histories of writes, reads '
  'and releases; all subsets of groups for the copying functions',
  'The options multiply, and cache and file-handle state depends on the order of operations; tests use single writes with '
  'default options.',
  [H5F, 'resqpy/olio/write_hdf5.py', MC],
  [('array cache and file handle state', H5F), ('dataset creation, packing and chunking', 'resqpy/olio/write_hdf5.py')],
  'exhaustive option product and explicit-state search over write/read histories on real hdf5 files',
  'Every combination within the stated bounds is written and read with h5py and by every reading route; histories are '
  'exhaustive to the stated depth. Trusts h5py / libhdf5.')

CONS = 'resqpy/olio/consolidation.py'

P('C05', 'Copying parts between models is faithful and complete',
  'Copying a part, or all parts, from another model gives the target an identical copy of it, together with everything it '
  'refers to, its arrays and its relationships with anything present in the target; what was already in the target is '
  'untouched and the source model is never modified. This holds for any starting content of either model, any order of '
  'copying, repeated copying, sub-directories, shared hdf5 files and file names. Asked to cut references or to set a '
  'realization, it does that and nothing else.',
  ['histories', 'inputs'], 'all orders and subsets of copied parts, contents of source and target, and option combinations',
  'Completeness of the copy depends on what is already present and in which relation; the tests copy into empty models '
  'and do not compare the copied xml, arrays and relationships with the original.',
  [FOR, 'resqpy/model/_xml.py', 'resqpy/olio/write_hdf5.py', MC],
  [('recursive copying of referenced parts', FOR), ('reciprocal relationships of copied parts', FOR),
   ('copying of arrays between files', 'resqpy/olio/write_hdf5.py')],
  'exhaustive enumeration of copy histories on real models against a snapshot oracle',
  'All orders of copying up to the stated length, all subsets of cut references; each compared with canonical snapshots '
  '(xml, arrays, relationships) of source and target, in memory and after re-opening.')

P('C06', 'Consolidation merges equivalent objects only, and re-points all references',
  'When parts are copied with consolidation, an object of a consolidatable class is merged with a resident object exactly '
  'when the two are equivalent (or have been declared so); every reference and relationship of the copied parts then names '
  'the resident object, nothing is left referring to an absent object, and no relationship is lost. The result does not '
  'depend on the order of copying. Without consolidation every object is copied.',
  ['histories', 'inputs'], 'all pairs of attribute choices per class; all subsets of equivalent residents; all copying orders',
  'Merging interacts with multiple references, chains of references, and what is already present; the tests consolidate a '
  'couple of objects.',
  [CONS, FOR, 'resqpy/organize/_utils.py', 'resqpy/time_series/_time_series.py', 'resqpy/crs.py'],
  [('equivalence search and map', CONS), ('re-pointing of references', FOR)],
  'exhaustive enumeration of resident subsets, near misses and copying orders on real models',
  'All closed subsets of ten residents with near misses, all pairs of choices within one attribute per class, all orders '
  'of four (thorough: six) copied parts; oracle is the pairwise specification of equivalence and a source snapshot.')

P('C09', 'Equivalence of objects reflects content, and reuse adopts an equivalent object',
  'Equality of coordinate systems, datums, features, interpretations, time series, lookups and property kinds is reflexive, '
  'symmetric and transitive, holds for objects with the same content (also when one is re-read from the model), and fails '
  'as soon as any significant attribute differs. Creating an object with reuse adopts an existing equivalent object when '
  'there is one, and adds a new part otherwise, whatever else is in the model.',
  ['inputs', 'histories'], 'all pairs and triples of attribute choices of each class; all sets of existing objects for reuse',
  'Each attribute has its own comparison (tolerances, units, defaults, None); tests compare a few pairs.',
  ['resqpy/crs.py', 'resqpy/organize', 'resqpy/olio/base.py', 'resqpy/property/property_kind.py',
   'resqpy/property/string_lookup.py', 'resqpy/time_series', 'resqpy/well/_md_datum.py'],
  [('is_equivalent methods', 'resqpy/organize'), ('try_reuse', 'resqpy/olio/base.py')],
  'exhaustive enumeration of pairs of attribute assignments on the real classes',
  'All pairs within the stated number of attribute changes from a base, in memory and re-read; triples for transitivity; '
  'all sets of existing objects for reuse. Oracle: attribute-wise specification of equivalence.')

P('C10', 'Metadata objects carry every attribute through xml unchanged',
  'For every metadata class (features, interpretations, coordinate systems, datums, time series, string lookups, property '
  'kinds, column lookups) whatever attributes an object is created with are the attributes of the object read back '
  'from the stored model, including title, originator, extra metadata and references; optional attributes stay absent when '
  'not given, and objects created again from the read object are the same again.',
  ['inputs', 'configurations'], 'all combinations of up to the stated number of attribute changes, for each class',
  'Attributes are mapped one by one in hand-written xml code on both sides; tests check a few attributes of a few classes.',
  ['resqpy/organize', 'resqpy/crs.py', 'resqpy/olio/base.py', 'resqpy/time_series', 'resqpy/property/string_lookup.py',
   'resqpy/property/property_kind.py', 'resqpy/well/_md_datum.py', 'resqpy/well/well_object_funcs.py'],
  [('create_xml / _load_from_xml pairs', 'resqpy/organize')],
  'exhaustive enumeration of attribute assignments through create, write, store, re-open, read',
  'Every assignment within the stated number of changes from each base; oracle is the assignment itself.')

P('C07', 'Parallel processing with recombination gives the serial result',
  'Work split over worker processes or batches (the multiprocessing function and its wrappers, collecting results of workers '
  'into one epc) gives the same result as doing it serially, for any interleaving of the workers, losing, repeating or '
  'mixing nothing; results and success flags are in the order of the batches; workers that fail are reported as failed in '
  'their places without spoiling the others; temporary files are removed. Temporary failures to open an hdf5 file during '
  'recombination are retried, and a copy that failed can be tried again.',
  ['schedules', 'fault points'], 'all interleavings of workers, all outcomes of workers; failure at every opening of an hdf5 file',
  'Interleaving and failure point are not under control of a test; the existing tests run one schedule without failures.',
  ['resqpy/multi_processing', 'resqpy/model/_forestry.py', 'resqpy/olio/write_hdf5.py'],
  [('function_multiprocessing', 'resqpy/multi_processing/_multiprocessing.py'),
   ('wrappers', 'resqpy/multi_processing/wrappers'), ('recursive copying', FOR)],
  'controlled scheduler enumerating interleavings and outcomes of workers, and a fault injector at hdf5 opens',
  'All interleavings of worker steps on real joblib threads under a controlled scheduler, all combinations of worker outcomes, '
  'a failure at every opening of an hdf5 file; compared with serial processing.')

P('C12', 'Time series are chronological and agree with the calendar',
  'Timestamps of a series are always in order of time, whatever their precision and however the series was built: by adding, '
  'inserting, extending, selecting, merging, from lists of dates or years, from simulator summary files, or re-read from the '
  'model. Looking up the index of, not later than, not earlier than or closest to a time, and all durations and '
  'timestamp arithmetic, agree with the calendar; geologic and human series are never confused.',
  ['inputs', 'histories'], 'all sets of timestamps of mixed precision and queries; all histories of building; all merges',
  'Boundary indices, equal times, mixed precision, leap days and empty series interact; the tests use two timestamps.',
  ['resqpy/time_series'],
  [('TimeSeries', 'resqpy/time_series/_time_series.py'), ('functions', 'resqpy/time_series/_functions.py'),
   ('GeologicTimeSeries', 'resqpy/time_series/_geologic_time_series.py')],
  'exhaustive enumeration of building histories and queries on the real classes against python datetime lists',
  'All subsets and histories within the stated bounds; the oracle is a sorted list of python datetimes or years.')

P('C08', 'Coordinates keep their place in the world when converted between systems',
  'Converting points between a coordinate reference system and the global frame, or between two systems, as single points or '
  'arrays and in either direction, applies exactly the offsets, rotation, axis order, z direction and units which the systems '
  'specify: round trips return the points, going by way of a third system makes no difference, and equal places stay '
  'equal. Objects moved to another system (surfaces, point sets, lines, grids and boxes) keep their place, and objects and '
  'arrays which were only read stay as they were.',
  ['inputs', 'configurations'], 'all combinations of attributes of one system; all pairs of systems; all global conventions',
  'Six axis orders, rotation, handedness, mixed units and time interact; tests convert a few points by one system.',
  ['resqpy/crs.py', 'resqpy/surface/_surface.py', 'resqpy/surface/_pointset.py', 'resqpy/lines/_polyline_set.py',
   'resqpy/grid/_xyz.py'],
  [('Crs', 'resqpy/crs.py'), ('change_crs', 'resqpy/surface/_surface.py'), ('grid boxes', 'resqpy/grid/_xyz.py')],
  'exhaustive enumeration of pairs of systems on the real classes against explicit trigonometry in world coordinates',
  'Exhaustive within the stated product of attributes; numeric tolerance 1e-6.')

P('C11', 'Unit conversion follows the units table for every unit',
  'Converting between any two compatible units, scalar or array, in place or not, with or without naming the quantity, '
  'follows the definition of the units: round trips return the value, compound units agree with their components, well known '
  'factors hold, incompatible units are refused leaving data untouched, and every accepted spelling of a unit names the same unit.',
  ['inputs'], 'all ordered pairs of the 1442 units, all quantities, all aliases',
  'Tests convert a handful of the 1442 units; offsets, compound and case-dependent spellings differ per unit.',
  ['resqpy/weights_and_measures', 'resqpy/olio/data/properties.json'],
  [('convert', 'resqpy/weights_and_measures/weights_and_measures.py'),
   ('nexus units', 'resqpy/weights_and_measures/nexus_units.py')],
  'exhaustive enumeration of all pairs of units on the real functions',
  'Complete for pairs of units; values: zero, ones, negative, large, small and nan.')

P('C13', 'Arrays and attributes of properties survive storage',
  'Whatever the supporting representation, indexable element, kind of values, count, packing and way of writing, a property '
  'read back by any route, in the session or from the re-opened model, has exactly the values and the attributes it was given: '
  'discrete, categorical, continuous, boolean, points and constant arrays, null values and nan, time, realization, facet, kind '
  'and unit. Similar properties inherit all they are not told otherwise, slices read and overwrite exactly their part, and '
  'masks and normalised arrays reflect exactly the null and inactive elements.',
  ['inputs', 'configurations'], 'all supports x elements x kinds of array x ways of writing and reading; all pairs of attributes',
  'Kinds of values, packing, count, constants and supports interact; the tests store ordinary float and int grid arrays.',
  ['resqpy/property', 'resqpy/olio/write_hdf5.py', 'resqpy/model/_hdf5.py'],
  [('Property', 'resqpy/property/_property.py'), ('PropertyCollection', 'resqpy/property/property_collection.py'),
   ('array attributes', 'resqpy/property/_collection_get_attributes.py'), ('xml', 'resqpy/property/_collection_create_xml.py')],
  'exhaustive enumeration of configurations of properties on the real classes, written, re-opened and read',
  'Exhaustive within the stated products; arrays of up to 24 elements.')

P('C14', 'Property collections select, combine and describe exactly their members',
  'Selecting from a property collection by any combination of criteria gives exactly the members whose attributes match; arrays '
  'combined over realizations, times or facets hold each member in its place; after any history of adding, removing, '
  'inheriting and enquiring, what the collection says of its members, singly and as a whole, is true of the members it then '
  'has; property sets and families of similar properties have exactly their members, and sampling takes the chosen elements.',
  ['inputs', 'histories'], 'all pairs of criteria with all values; all histories of 5 operations; all subsets combined',
  'Criteria interact with special and falsy values, and cached descriptions with later changes; the tests select by one or two.',
  ['resqpy/property'],
  [('PropertyCollection', 'resqpy/property/property_collection.py'), ('selection', 'resqpy/property/_collection_add_part.py'),
   ('combined arrays', 'resqpy/property/_collection_get_attributes.py')],
  'exhaustive enumeration of selections and of histories of a collection on the real classes against a table of members',
  'Exhaustive within 46 members, 19 criteria in pairs (thorough: triples) and histories of 5 (6) of 11 operations.')

P('C15', 'IJK grid geometry: every way of asking agrees with the given corner points',
  'For any IJK grid, with or without faults (split pillars in any arrangement), gaps between layers, cells and pillars without '
  'geometry, any handedness or direction, stored as points or parametric lines: corner points, individual points, centre points, '
  'pillars, cross sections, bounding boxes, horizons, surface points and split/defined flags are those of the geometry that was '
  'given, in session and when re-read, for one item or all, cached or not, in any order of asking.',
  ['inputs', 'histories'], 'all partitions of columns around each pillar; all gap and missing-geometry patterns of small grids',
  'Split pillars at edges, gaps, missing geometry and cached or single-item access multiply into code paths the tests never reach.',
  ['resqpy/grid'],
  [('points', 'resqpy/grid/_points_functions.py'), ('defined geometry', 'resqpy/grid/_defined_geometry.py'),
   ('writing', 'resqpy/grid/_write_hdf5_from_caches.py'), ('grid', 'resqpy/grid/_grid.py')],
  'exhaustive enumeration of fault, gap and missing-geometry patterns; every access of every item on the real classes',
  'Exhaustive over the split patterns of one pillar (15 partitions, every position) and of pairs on small grids.')
P('C16', 'Corner point import makes a grid whose active cells have those corners',
  'A grid imported from an array of corner points and an active mask gives back, in session and re-read, exactly the given '
  'corner points for every active cell, inactive exactly where not active, geometry undefined where requested, k gaps exactly '
  'where voids exceed the limit and smaller voids closed, pillars split exactly where corners differ by more than the tolerance, '
  'and the handedness that the geometry has.',
  ['inputs'], 'all active masks of 8 (12) cells x faults x gaps x contents x treatments; all void patterns; all pillars',
  'The result depends on masks and discrepancies around each pillar; tests import one or two hand made arrays.',
  ['resqpy/rq_import', 'resqpy/grid'],
  [('grid_from_cp', 'resqpy/rq_import/_grid_from_cp.py')],
  'exhaustive enumeration of active masks, fault patterns, voids and options through the real import against the given array',
  'Exhaustive over all 255 masks of a 2x2x2 grid (thorough: 4095 of 2x2x3) with the treatments rotated over them.')
P('C17', 'Quantities derived from a grid agree with direct geometry on its corner points',
  'Thickness, volume, pinched-out cells, interface vectors and lengths, faults and their throws, columns near faults, lookup of '
  'the cell or pillar at a point, bounding boxes, pixel maps, natural and local cell indices, flips of axes, K direction and '
  'handedness, and the active cell property of a grid equal what plain geometry or arithmetic gives for its corner points, in any '
  'units asked for, for one cell or all, whatever was asked before and with arrays returned earlier left unchanged.',
  ['inputs', 'histories'], 'all pinch, fault and gap patterns of small grids; all ordered pairs of requests; all pixel map placements',
  'Each quantity has cached, single-cell, property-based and unit-converted routes; tests take one route on one tidy grid.',
  ['resqpy/grid', 'resqpy/olio'],
  [('cell properties', 'resqpy/grid/_cell_properties.py'), ('faults', 'resqpy/grid/_faults.py'), ('boxes', 'resqpy/grid/_xyz.py'),
   ('volumes', 'resqpy/olio/volume.py'), ('pixel maps', 'resqpy/grid/_pixel_maps.py')],
  'exhaustive enumeration of grid patterns and request sequences on the real classes against quadrature and plain geometry',
  'Exhaustive over pinch patterns of 8 (12) cells, fault patterns around 2x2 (2x3) columns and pairs of requests; I face throws of '
  'fault_throws() are a recorded finding.')
P('C18', 'Queries do not change an object, later answers, earlier answers or the model',
  'Asking an object about itself (points, corners, centres, sections, volumes, thickness, faults, transmissibility, connection '
  'sets, intersections, areas, lengths, data frames, property arrays, statistics and so on) gives the same answer whichever '
  'other queries were made before it, including those that cache or uncache; arrays already handed out keep their values; and '
  'the parts of the model and their xml stay as they were.  This holds for grids, surfaces, meshes, lines, wells, unstructured '
  'grids, connection sets and property collections alike.',
  ['histories'], 'all ordered pairs (triples) of up to 85 queries on each of 29 kinds of object freshly opened from file',
  'Caches are shared between queries, so wrong answers need a particular earlier query; tests ask a fixture one thing at a time.',
  ['resqpy/grid', 'resqpy/surface', 'resqpy/lines', 'resqpy/well', 'resqpy/unstructured', 'resqpy/fault', 'resqpy/property'],
  [('grid caches', 'resqpy/grid/_points_functions.py'), ('surface caches', 'resqpy/surface/_surface.py'),
   ('well caches', 'resqpy/well/_blocked_well.py'), ('property arrays', 'resqpy/property/property_collection.py')],
  'exhaustive enumeration of all sequences of two (three) queries on fresh real objects; differential against a lone query',
  'Exhaustive over ordered pairs of the listed queries with fixed arguments; the value of a lone query is judged by C15, C17 etc.')
P('C19', 'A regular grid has the geometry its extent, steps and origin define',
  'The nodes, corner points, cell centres, slices, sections, lengths, thickness, volume, box and columns of a regular (block) grid '
  'are those that follow from its extent, its I, J and K steps (aligned with the axes in either direction, turned, tilted or sheared) '
  'and its origin: asked for in memory, with or without cached points, held as an irregular grid, stored as a lattice or as '
  'cell lengths and read again, or based on a regular mesh; for one cell or all; in any order; and an explicit grid with the same '
  'nodes answers alike.',
  ['inputs', 'histories'], 'all extents up to 3 x signs of steps, oblique steps x ways of holding x ordered pairs of questions',
  'Regular grids override most geometry methods with shortcuts, one per route; tests compare a few of them for one grid.',
  ['resqpy/grid'],
  [('regular grid', 'resqpy/grid/_regular_grid.py'), ('grid', 'resqpy/grid/_grid.py')],
  'exhaustive enumeration of extents, steps, ways of holding and question orders on the real classes against arithmetic',
  'Exhaustive over extents up to 3 (4) per axis; loss or doubling of an origin which is turned into crs offsets, and of negative '
  'steps stored as cell lengths, are recorded findings; volumes are compared for orthogonal steps only, as documented.')
P('C20', 'A well path follows its survey or table, and measured depths lie along it',
  'A trajectory made from a deviation survey passes through the points of the constant curvature arcs between stations, in the '
  'units, angle units and z direction of the survey and crs; one made from arrays, a table or text holds those values for the well asked '
  'for; one made from cells visits their centres in turn; a spline of it passes through its knots in order.  Positions at a measured '
  'depth, inclinations, tangents, tables and text written are those of the points, before and after storing, together with datum, '
  'crs, domain, units, survey and interpretation.',
  ['inputs'], 'all direction triples of 11 at 3 stations x 16 kinds of units and crs; all moves between up to 4 points; all row interleavings',
  'Special directions (vertical with azimuth change, upwards, full turns) and unit mixes are where survey arithmetic fails; tests use one survey.',
  ['resqpy/well'],
  [('trajectory', 'resqpy/well/_trajectory.py'), ('deviation survey', 'resqpy/well/_deviation_survey.py'), ('wells from text', 'resqpy/well/well_object_funcs.py')],
  'exhaustive enumeration of station directions, units, tables, file layouts on the real classes against quadrature and arithmetic',
  'Exhaustive over listed directions, moves and kinds; directions turning straight back have no defined arc and are left out.')
P('C21', 'A blocked well holds the cells its path crosses, with entry and exit points',
  'A well blocked against an IJK grid (faulted, with k gaps, pinched out layers, either hand or z direction, or in another crs than the '
  'path) holds each cell its path passes through, in order, with the measured depths and faces of entry and exit, and unblocked '
  'intervals between; unless the path comes near an edge.  Queries, columns of its data frame (positions, lengths, angles, permeability '
  'thickness, perforated parts), limits on rows, properties and frames mapped to its cells follow from that; well specifications '
  'written and read, with dates, units and grid names, and cell lists and columns, hold the same cells.',
  ['inputs'], '13 grids x all paths of two sections through a lattice; all pairs of row limits; all orders of 5 blocks of a specification',
  'Well blocking walks from cell to cell with nudges and special cases for faults, gaps and re-entry; tests follow a few wells.',
  ['resqpy/well', 'resqpy/grid_surface'],
  [('well blocking', 'resqpy/grid_surface/_blocked_well_populate.py'), ('grid skin', 'resqpy/grid_surface/_grid_skin.py'), ('blocked well', 'resqpy/well/_blocked_well.py'),
   ('well specifications', 'resqpy/olio/wellspec_keywords.py')],
  'exhaustive enumeration of well paths over a lattice for each kind of grid on the real code against half-space clipping',
  'Cells have plane faces; paths within 0.25 of an edge of a cell are left out as the answer hangs on tolerances there.')
P('C22', 'A triangulated surface is the triangles it was made from, and answers as such',
  'A surface made from triangles, meshes (whole, with missing values, torn), mesh and tsurf files, cell faces, planes, sails or point sets '
  'has the triangles and points which follow from its source, patch by patch and as a whole; stays so through change of crs, vertical '
  'scaling, clockwise ordering, being set again, storing and reading; trimming and splitting keep the triangles they should.  '
  'Edges, lengths, normals, sampled z and intersections with lines, segments and well paths are those of plain geometry.  '
  'Point sets hold their points likewise.',
  ['inputs', 'histories'], 'all patterns of missing values in small meshes; all pairs of 11 operations; all lines between lattice points x triangles',
  'Composite and patch arrays are cached apart and every source has its own indexing; tests look at one route at a time.',
  ['resqpy/surface', 'resqpy/olio', 'resqpy/grid_surface'],
  [('surface', 'resqpy/surface/_surface.py'), ('patch', 'resqpy/surface/_triangulated_patch.py'), ('point set', 'resqpy/surface/_pointset.py'),
   ('intersection', 'resqpy/olio/intersection.py'), ('paths', 'resqpy/grid_surface/_trajectory_intersects.py')],
  'exhaustive enumeration of sources, histories of changes and lattice lines on the real classes against exact rational geometry',
  'Exhaustive over the listed sources and lattices; lines through edges of triangles are compared only where both answers agree exactly.')
P('C23', 'Grid connection sets hold the faces they were given, through all operations',
  'A grid connection set made from face masks and sides, face indices, column edges, the skin of a set of cells, a table of faces or simulator text, '
  'or for pinched out layers and closed k gaps, holds just those pairs of cells and faces, in order, each with its feature.  Appending, merging '
  '(in the same or another model, with properties), picking a feature, filtering by cells or layers, cleaning and inheriting features, '
  'storing and reading keep that; maps, face arrays, combined multipliers, column edges, surfaces and text made from a set follow from it.',
  ['inputs', 'histories'], 'all sets of faces and cell masks of 2x2x2; all pinched x inactive patterns of 5 layers; all pairs of 14 operations',
  'Pairs, faces, features and properties are parallel arrays rearranged by each operation, some loaded late; tests use a few fixed sets.',
  ['resqpy/fault', 'resqpy/olio'],
  [('connection set', 'resqpy/fault/_grid_connection_set.py'), ('functions', 'resqpy/fault/_gcs_functions.py'), ('text', 'resqpy/olio/read_nexus_fault.py')],
  'exhaustive enumeration of face sets, masks, columns and operation sequences on the real classes against a list of pairs',
  'Exhaustive over grids of 2x2x2 cells and columns of 5 (6) layers; one grid per set; a k gap within pinched layers is left out.')
P('C24', 'Transmissibilities follow from geometry, permeability and modifiers',
  'Half cell transmissibilities of a grid are permeability times area towards the half axis over its length, times net to gross for horizontal '
  'faces, scaled for units and not a number where that cannot be computed; transmissibilities between neighbours, across faults, pinchouts and '
  'k gaps are their harmonic combination, with fractional areas of juxtaposed faces exact and zero where there is no flow path; multipliers, '
  'absolute modifiers and stored transmissibility properties apply as documented; answers do not depend on what was asked before.  '
  'Likewise for prism grids.',
  ['inputs', 'histories'], 'all pairs of end throws x 8 thickness patterns; faulted, gapped, pinched grids; all subsets of modifiers; all pairs of 10 questions',
  'Face areas, overlaps and cached arrays combine geometry, properties and settings; tests compare few regular cases.',
  ['resqpy/olio', 'resqpy/grid', 'resqpy/fault', 'resqpy/unstructured'],
  [('half cells', 'resqpy/olio/transmission.py'), ('grid', 'resqpy/grid/_transmissibility.py'), ('connections', 'resqpy/grid/_connection_sets.py'),
   ('prisms', 'resqpy/unstructured/_prism_grid.py')],
  'exhaustive enumeration of throws, geometries, modifiers and question sequences on the real code against exact clipping and plain arithmetic',
  'Exhaustive over lattices of throws and small grids; uniform units for xy and z; dip of prism faces not adjusted (documented todo).')
P('C25', 'Derived grids follow from the geometry and properties of their source',
  'A box extracted from, refinement, coarsening, unfaulted, tilted, zonal or single layer version of, or copy of, a grid (faulted, with k gaps, inactive '
  'cells or missing points; regular) has the corner points, k gaps, inactive cells, crs and parent window its definition gives, in the same or a new '
  'file, as returned and as read again; leaves its source alone; and has the inherited properties, by realization, with their kind, facet, '
  'units, null value and lookup: sliced, repeated, or upscaled by the appropriate weights.  Layer ranges of zones, fine and coarse cell mappings '
  'and box arithmetic are exact.',
  ['inputs'], 'all boxes of 12 grids; all kinds of split at a pillar x all boxes; 24 refinements x 8 grids; all layer compositions; all box pairs of 3x3x3',
  'Each derivation renumbers split pillars, gaps, layers and properties in its own way; tests derive from one or two plain grids.',
  ['resqpy/derived_model', 'resqpy/property', 'resqpy/olio'],
  [('derived models', 'resqpy/derived_model/_common.py'), ('box', 'resqpy/derived_model/_extract_box.py'), ('refinement', 'resqpy/derived_model/_refined_grid.py'),
   ('property inheritance', 'resqpy/property/grid_property_collection.py'), ('mapping', 'resqpy/olio/fine_coarse.py'), ('boxes', 'resqpy/olio/box_utilities.py')],
  'exhaustive enumeration of source grids, boxes, ratios and zones on the real functions against slices, interpolation and sums of corner points',
  'Exhaustive over the listed grids of up to 36 cells; regular grids start at the crs origin, as they do when stored.')
P('C26', 'Polylines answer as the geometry they are, and survive storage and text files',
  'Lengths, midpoints, centre, points along, equidistant points, inclusion of points, area, convexity, sense, outward normals, hull, closest '
  'segments, snapping, intersections, crossings, trimming, scaling and mapping of the inside to a unit shape and back are those of the '
  'polyline\'s geometry, open or closed, in left or right handed axes; no question changes the line.  Splines pass through their points as '
  'the stated cubic.  Lines and sets of lines, with closure, crs and interpretation, come back from storage, irap and charisma text as they '
  'were; pixels in a polygon, removal of repeats and draping follow their definitions.',
  ['inputs'], 'all polygons of up to 5 (6) points and open lines of up to 4 (5) of a 3x3 lattice; all sets of up to 3 (4) of 6 lines; all short stick patterns',
  'Vertices in line with points, collinear runs, self crossing, closing segments and lines of equal content are exceptions of their own; tests use one octagon.',
  ['resqpy/lines', 'resqpy/olio'],
  [('polyline', 'resqpy/lines/_polyline.py'), ('set', 'resqpy/lines/_polyline_set.py'), ('splines', 'resqpy/lines/_common.py'),
   ('inclusion', 'resqpy/olio/point_inclusion.py'), ('intersection', 'resqpy/olio/intersection.py'), ('text', 'resqpy/olio/simple_lines.py')],
  'exhaustive enumeration of polygons, lines and sequences of lines on the real code against exact lattice geometry',
  'Exhaustive over the lattice; points exactly on a boundary are not asked about, area of concave polygons within the stated sampling.')
P('C27', 'An unstructured grid is the cells, faces and nodes it was made from',
  'For a stored or unstored unstructured grid of any cell shape, in a crs of either hand and with any units: counts, nodes, faces, edges and '
  'centres of cells and faces, neighbours across faces, external and internal faces with or without masked cells, face normals, planar '
  'approximations and triangulations, areas and volumes are those of its geometry, in any order of asking.  Points, topology, handedness '
  'and inactive cells come back from storage.  A hexa grid made from an IJK grid has the same cells, neighbours, handedness, volumes, inactive '
  'cells and properties; tetrahedra made from a cell fill it; vertical prisms made from surfaces have the columns given and lie on the surfaces.',
  ['inputs'], 'ten complexes x 3 (4) shapes of space x 4 (8) orders x 6 (8) crs; all pairs of 27 questions; all masks; all hands and axis orders',
  'Offsets into jagged arrays, handedness, mixed units and caches filled in different orders; tests use one or two right handed grids with equal units.',
  ['resqpy/unstructured', 'resqpy/olio'],
  [('unstructured', 'resqpy/unstructured/_unstructured_grid.py'), ('hexa', 'resqpy/unstructured/_hexa_grid.py'), ('tetra', 'resqpy/unstructured/_tetra_grid.py'),
   ('pyramid', 'resqpy/unstructured/_pyramid_grid.py'), ('prism', 'resqpy/unstructured/_prism_grid.py'), ('volume', 'resqpy/olio/volume.py')],
  'exhaustive enumeration of complexes, orders, spaces and sequences of questions on the real code against plain geometry of the complex',
  'Exhaustive over the listed complexes, which have planar, convex faces; triangulated areas are not asked for with mixed units.')
P('C28', 'Frames, markers and logs along a well hold what they were given',
  'A wellbore frame keeps its measured depths, trajectory, interpretation and metadata; the interval of any measured depth and its place within are found; '
  'a marker frame made from a table, with default or given column names, keeps each marker with its measured depth, '
  'boundary kind and interpretation, creating or reusing features, finds markers by interpretation and writes the table back; log collections keep each '
  'curve, its values, units, title and realization, convert to a data frame and to LAS text, and LAS text read onto a trajectory has the depths, units '
  'and values it states; all of this before storage and after, and whether or not the well has an interpretation.',
  ['inputs'], 'all increasing sequences of depths x half steps; all sequences of 9 markers x 5 tables; all sequences of 6 curves x 4 routes',
  'Defaults for missing columns, units, interpretations and repeated curves are taken in separate places; tests use one complete table and one log.',
  ['resqpy/well', 'resqpy/property', 'resqpy/olio'],
  [('frame', 'resqpy/well/_wellbore_frame.py'), ('markers', 'resqpy/well/_wellbore_marker_frame.py'), ('marker', 'resqpy/well/_wellbore_marker.py'),
   ('logs', 'resqpy/property/well_log_collection.py'), ('log', 'resqpy/property/well_log.py')],
  'exhaustive enumeration of depth sequences, marker tables and curve sequences on the real code against the rows and curves given',
  'Exhaustive over the listed depths, markers and curves; curves without a unit are not read from LAS.')
P('C29', 'Faces found for a surface are those between cells which it separates',
  'The faces found to represent a surface in a grid, regular or irregular, by any of the methods, are those between neighbouring cells whose centres '
  'are on either side of it, each once and without leaks at edges of triangles, for surfaces of any shape or extent and in any crs; the triangle, depth, '
  'offset, normal vector, bisector of the grid and shadow returned with them, in the order of the faces, are those of the surface at that place; '
  'consistent pairs have their first cells on one side; curtains are found in all layers.  The surface is left as it was.',
  ['inputs'], 'all sheets of 4 levels at 4 corners x 3 axes x 2 diagonals; all triangles of 8 points; all two part masks of 3x2x2; 8x8 crs',
  'Each method has its own code for each axis, normalised, batched and sorted; tests use one sheet in one crs with few properties.',
  ['resqpy/grid_surface', 'resqpy/olio', 'resqpy/fault'],
  [('find faces', 'resqpy/grid_surface/_find_faces.py'), ('points in triangles', 'resqpy/olio/vector_utilities.py'), ('intersections', 'resqpy/olio/intersection.py'),
   ('connection set', 'resqpy/fault/_grid_connection_set.py')],
  'exhaustive enumeration of sheets, triangles, masks and crs on the real code against exact segment and triangle tests',
  'Exhaustive over lattices of surfaces; a segment between centres which ends on a triangle, or touches an outer edge, is not judged; no GPU.')
P('C30', 'Derived grids with moved points, new faults or cut out around a well',
  'Scaling fault throws, globally or by name, moves each side of a fault along its pillar in proportion to its distance from the healed position at the '
  'reference interface, equally in all layers, with decay in neighbours as asked; draping puts the healed reference interface on the surface, along the pillars; '
  'a local depth adjustment and an interpolation between two grids give the stated points; added faults split pillars and move both sides by the throws '
  'given, with connection sets; a box around a column, blocked well or trajectory holds the cells within the radius; a gathered ensemble has the properties '
  'of each realization once.  The grid returned is the one stored, k gaps, properties, displacements and connection sets included; sources are unchanged.',
  ['inputs'], 'all splits of a pillar x factors x reference interfaces x gaps; all fault paths through 2x2 columns and pairs; all columns x radii x layers of 3x3x3',
  'Each derivation rebuilds the arrays of split pillars, layers with gaps and inherited parts in its own way; tests use one grid for each.',
  ['resqpy/derived_model', 'resqpy/grid', 'resqpy/olio'],
  [('throw scaling', 'resqpy/derived_model/_fault_throw_scaling.py'), ('drape', 'resqpy/derived_model/_drape_to_surface.py'),
   ('local shift', 'resqpy/derived_model/_local_depth_adjustment.py'), ('interpolation', 'resqpy/derived_model/_interpolated_grid.py'),
   ('faults', 'resqpy/derived_model/_add_faults.py'), ('well box', 'resqpy/derived_model/_extract_box_for_well.py'),
   ('ensemble', 'resqpy/derived_model/_gather_ensemble.py')],
  'exhaustive enumeration of sources, arguments and paths of pillars on the real code against the moved reference corner points',
  'Exhaustive over the listed lattices; wells are vertical; left and right of a fault are those of I to the right and J down the page.')
P('C31', 'Simulator files are read as what they hold and written as what the model holds',
  'Arrays read from text, with comments, keywords, repeat counts and blank lines, or from pure binary files, have the values, order and type stated, and arrays written '
  'as text or binary read back the same.  Corner points of a grid are written with the units, direction, offsets and order asked for; corner points imported, in any of the '
  'formats, give a stored grid with those points in the crs asked for, split pillars, k gaps for voids larger than stated, inactive cells and '
  'property arrays, as given; properties added later, singly, as an ab list or an ensemble, likewise.  Decoarsening gives fine cells the '
  'value, or share, of their host; fault tables give the faces, names and multipliers of their rows.',
  ['inputs'], 'six shapes x all layouts x comments x headers; all units x directions x origins x formats; all boxes of 2x3x3; all sequences of fault rows',
  'Formats, units, directions, defaults and binary copies are combined with code for each; tests read a few fixed files.',
  ['resqpy/olio', 'resqpy/rq_import', 'resqpy/property', 'resqpy/grid'],
  [('read arrays', 'resqpy/olio/load_data.py'), ('write arrays', 'resqpy/olio/write_data.py'), ('import', 'resqpy/rq_import/_import_nexus.py'),
   ('grid from corner points', 'resqpy/rq_import/_grid_from_cp.py'), ('corner points written', 'resqpy/grid/_write_nexus_corp.py'),
   ('properties', 'resqpy/property/grid_property_collection.py'), ('faults', 'resqpy/olio/read_nexus_fault.py')],
  'exhaustive enumeration of texts, formats, units and options on the real code against the values written and reference corner points',
  'Exhaustive over the listed pieces and options; DADs, vdb files and local grids are not included.')
P('C32', 'Triangulations, Voronoi cells and directions follow from points and vectors',
  'The triangulation of a set of points uses every point, covers their convex hull, has no point within the circle of a triangle, and its hull is the clockwise '
  'boundary; the Voronoi cell of each point, within an area holding the centres of the triangles, is the part of the area nearer to it than to any other point, and polygons '
  'are triangulated around their centres.  Edges, rims and triangles at a point or edge are those of the triangles.  Tests of points in triangles and '
  'polygons, order, areas, normals, distances and intercepts are exact.  Azimuth, inclination, rotation, tilt, reorientation and rings '
  'follow their definitions, singly or for arrays of any shape; arguments stay as they were.',
  ['inputs'], 'all sets of 3-6 (8) points of three lattices x origins x orders; all subsets of 8 triangles; all triangles of 3x3; all pairs of 74 directions',
  'Points in line or on a circle, vertical or reversed vectors, and each quadrant have their own branches; tests use one or two cases of each.',
  ['resqpy/olio'],
  [('triangulation', 'resqpy/olio/triangulation.py'), ('vectors', 'resqpy/olio/vector_utilities.py'), ('intersection', 'resqpy/olio/intersection.py'),
   ('polyline', 'resqpy/lines/_polyline.py')],
  'exhaustive enumeration of point sets, triangles and directions on the real code against rational arithmetic and definitions',
  'Exhaustive over the lattices; the simple algorithm may leave concavities of 3% of the area; projection onto a plane is not included.')
P('C33', 'Tables of numbers are stored, found, interpolated and written as they are',
  'A data frame, time table or relative permeability table stored in a model has, when read again by uuid or title, the rows, columns, values, units, times, metadata '
  'and realization given, whether lookup tables and time series are its own or shared, and each of an ensemble of realizations added to one '
  'table, in any order and session, is stored and read as itself; searches by kind, title, phases, salinity and index find those tables only.  Relative permeability '
  'tables are accepted exactly when columns fit the phases and values are complete, in range and monotonic; interpolation is linear between the rows which have a '
  'value; text written, or with comments, tabs and several tables, reads back as those tables.  Data frames given are not changed.',
  ['inputs', 'histories'], 'all shapes to 3x3 (4x4) x units x realizations; all orders of 3 (4) realizations; all 2-3 (4) kinds; all columns; all sequences of 3 (4) values',
  'Tables with realizations, shared lookups, missing values or other column orders take their own branches; tests store three tables.',
  ['resqpy/olio'],
  [('data frames', 'resqpy/olio/dataframe.py'), ('relative permeability', 'resqpy/olio/relperm.py')],
  'exhaustive enumeration of tables, sequences of additions and texts on the real code against the numbers given',
  'Exhaustive over the listed shapes and pieces; numeric columns only; lookup tables shared are those of another data frame.')
