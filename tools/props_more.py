# executed by props.py
GEO = 'rene/_geometries/'

prop('C12', 'Contour orientation and segments',
     'For every simple contour, given from any starting vertex and in either '
     'direction, orientation is COUNTERCLOCKWISE when the enclosed signed '
     'area is positive and CLOCKWISE otherwise; segments are the edges '
     'joining each vertex to the next and the last to the first, in order, '
     'and vertices are those given.',
     'all order types of triangles; quadrangles, pentagons, rectangular, '
     'L-, U- and C-shaped rings by order type, from every vertex',
     TESTS + 'orientation is decided at the least vertex, ties included.',
     [GEO + 'base_contour.py', 'rene/_utils.py', 'rene/_exact/contour.py'],
     [{'name': 'orientation at the least vertex', 'where':
       'rene/_utils.py:to_contour_orientation, to_arg_min'}])

prop('C13', 'Points are located exactly',
     'For every geometry (segment, contour, multisegment, polygon with or '
     'without holes, multipolygon, empty) and any point, locate answers '
     'BOUNDARY on the segments or on a border or hole boundary, INTERIOR '
     'strictly inside a region and EXTERIOR otherwise, whatever vertex a '
     'ring starts from and whichever way it runs; `point in geometry` is '
     'true unless the point is EXTERIOR.',
     'points against geometries, by order type (exhaustive for segments, '
     'triangles and axis-parallel shapes)',
     TESTS + 'points level with vertices or on edges are rarely drawn.',
     ['rene/_utils.py', GEO + 'base_polygon.py', GEO + 'base_multipolygon.py',
      GEO + 'base_multisegment.py', GEO + 'base_contour.py',
      GEO + 'base_segment.py', GEO + 'base_empty.py'],
     [{'name': 'ray casting', 'where':
       'rene/_utils.py:locate_point_in_region, locate_point_in_segment'}])

prop('C14', 'Bounding boxes are tight',
     'The bounding_box of a segment, contour, multisegment, polygon or '
     'multipolygon is the least axis-parallel box containing all of its '
     'vertices, whatever their order and whichever coordinates coincide.',
     'all weak orders of the coordinates of up to four points per axis',
     TESTS + 'running minima and maxima go wrong only in certain orders of '
     'the coordinates.',
     [GEO + 'base_contour.py', GEO + 'base_multisegment.py',
      GEO + 'base_segment.py', GEO + 'base_polygon.py',
      GEO + 'base_multipolygon.py', 'rene/_utils.py'],
     [{'name': 'running bounds', 'where': 'rene/_utils.py:merge_boxes'}])

prop('C15', 'Points are ordered lexicographically',
     'For any two points, <, <=, > and >= compare by x, then by y; == and '
     '!= compare both coordinates; equal points have equal hashes; x and y '
     'are the coordinates given to the constructor.',
     'all pairs of points (all nine order types)',
     TESTS + 'the sweep orders points everywhere, ties included.',
     [GEO + 'base_point.py', 'rene/_exact/point.py'],
     [{'name': 'comparison operators', 'where': GEO + 'base_point.py'}],
     level='proof', note=NOTE_EXH)

prop('C16', 'Equality and hash ignore representation only',
     'Segments are equal when they join the same points; contours when one '
     'is a rotation or reversal of the other; multisegments, holes and '
     'parts of multipolygons compare as collections in any order; polygons '
     'by border and holes. Nothing else is equal, other kinds never are, '
     'and equal geometries always have equal hashes.',
     'pairs of geometries: rotations, reversals, permutations and single '
     'replacements, by order type of the points',
     TESTS + 'hash and equality must agree on every representation.',
     [GEO + 'base_segment.py', GEO + 'base_contour.py',
      GEO + 'base_multisegment.py', GEO + 'base_polygon.py',
      GEO + 'base_multipolygon.py', GEO + 'base_empty.py'],
     [{'name': 'rotational equivalence', 'where': GEO + 'base_contour.py'}])

prop('C17', 'Operators cover every pair of kinds',
     'For every ordered pair of kinds (empty, segment, contour, '
     'multisegment, polygon, multipolygon) relate_to and & are defined; |, '
     '^ and - are for two linear or two shaped geometries or with empty, and '
     '- also for a contour or multisegment minus a shaped geometry. All '
     'others raise TypeError. Empty is disjoint from everything else, equal '
     'to itself and neutral for | and ^ and on the right of -.',
     'all 36 ordered pairs of kinds and operators, at one sample per pair',
     'tests do not enumerate the dispatch matrix; a missing or swapped '
     'branch affects a single pair of kinds.',
     [GEO + f'base_{k}.py' for k in ('empty', 'segment', 'contour',
                                     'multisegment', 'polygon',
                                     'multipolygon')]
     + [GEO + 'utils.py'],
     [{'name': 'isinstance dispatch', 'where': GEO + 'base_*.py'}])

prop('C18', 'Constructors and seeds reject bad input',
     'A contour of fewer than three vertices, a multisegment of fewer than '
     'two segments and a multipolygon of fewer than two polygons raise '
     'ValueError, larger ones are accepted; validate_seed accepts exactly '
     'the integers from 0 to 2**64 - 1 and raises ValueError for negative, '
     'OverflowError for larger and TypeError for other values.',
     'counts 0 to 3 of parts; seeds at and around the limits and of other '
     'types',
     'tests draw valid inputs of a few sizes only.',
     ['rene/_exact/contour.py', 'rene/_exact/multisegment.py',
      'rene/_exact/multipolygon.py', 'rene/_utils.py',
      'rene/constants.py'],
     [{'name': 'length checks', 'where': 'rene/_exact/*.py'}])

prop('C19', 'Validity checks find every conflict',
     'For distinct-ended segments, Multisegment.is_valid holds exactly when '
     'any two of them meet at most in a common endpoint; Contour.is_valid '
     'holds exactly when no edges cross or overlap, no vertex touches a '
     'non-neighbouring edge and no neighbouring edges are collinear.',
     'all order types of two segments and of triangles; more segments and '
     'longer rings by order type',
     TESTS + 'is_valid is only tested for self-consistency.',
     [GEO + 'base_multisegment.py', GEO + 'base_contour.py',
      'rene/_bentley_ottmann/base.py',
      'rene/_bentley_ottmann/events_registry.py',
      'rene/_bentley_ottmann/sweep_line_key.py',
      'rene/_bentley_ottmann/events_queue_key.py'],
     [{'name': 'sweep', 'where': 'rene/_bentley_ottmann/base.py:sweep'}])

TRI = 'rene/_triangulation/'

prop('C20', 'Trapezoidations locate points exactly',
     'A Trapezoidation made from a polygon whose holes meet the border at '
     'most at common vertices, or from a multisegment whose segments meet '
     'only at endpoints, whatever the seed, the starting vertex and the '
     'direction of its contours, locates every point where it lies: '
     'BOUNDARY on an edge, INTERIOR strictly inside the polygon and EXTERIOR '
     'otherwise; `point in trapezoidation` is true unless it is EXTERIOR.',
     'polygons of up to eight edges and multisegments of up to four '
     'segments by order type, orders of insertion (all of them for up to '
     'four edges), points in special and general position',
     'the tests only check that a location is answered.',
     ['rene/_seidel/trapezoidation.py', 'rene/_seidel/edge.py',
      'rene/_seidel/trapezoid.py', 'rene/_seidel/x_node.py',
      'rene/_seidel/y_node.py', 'rene/_seidel/leaf.py',
      'rene/_exact/trapezoidation.py', 'rene/_utils.py'],
     [{'name': 'insertion of edges', 'where':
       'rene/_seidel/trapezoidation.py:_add_edge'},
      {'name': 'search structure', 'where':
       'rene/_seidel/x_node.py, y_node.py'},
      {'name': 'insertion order', 'where': 'rene/_utils.py:permute'}],
     note=NOTE_FAM + ' Polygons with a hole vertex inside an edge of the '
     'border are known findings.')

prop('C21', 'Delaunay triangulations are Delaunay',
     'DelaunayTriangulation.from_points of any points, in any order and '
     'repeated or not, has triangles that are counterclockwise, fill the '
     'convex hull without overlap, use every point as a vertex, and no '
     'point lies strictly inside the circle around a triangle; there are '
     'none for collinear points. The border is the convex hull.',
     'sets of up to eleven points by order type and in-circle signs (all '
     'sets of up to four points on a 4x4 grid)',
     'tests draw random points, for which collinear and cocircular '
     'configurations are rare, and do not check circles.',
     [TRI + 'delaunay.py', TRI + 'mesh.py', TRI + 'quad_edge.py',
      'rene/_exact/triangulation.py', 'rene/_utils.py'],
     [{'name': 'divide and conquer', 'where': TRI + 'mesh.py:merge'},
      {'name': 'in-circle predicate', 'where':
       'rene/_utils.py:locate_point_in_point_point_point_circle'}])

prop('C22', 'Constrained triangulations fill the polygon',
     'ConstrainedDelaunayTriangulation.from_polygon of a polygon whose '
     'holes are clockwise and meet the border at most at common vertices has '
     'counterclockwise '
     'triangles on vertices of the polygon which fill it exactly, every '
     'edge of the polygon is a side of one triangle, every other side is '
     'shared by two which satisfy the Delaunay criterion (neither has its '
     'far vertex strictly inside the circle around the other); the border '
     'is the border of the polygon.',
     'triangles to heptagons, rectangular shapes and triangles with a hole '
     'by order type, contours from every vertex and in both directions',
     'tests check only that triangles use the vertices of the polygon.',
     [TRI + 'constrained_delaunay.py', TRI + 'mesh.py', TRI + 'vertices.py',
      TRI + 'quad_edge.py', 'rene/_exact/triangulation.py'],
     [{'name': 'constraints', 'where':
       TRI + 'constrained_delaunay.py:set_constraint'},
      {'name': 'cutting', 'where':
       TRI + 'constrained_delaunay.py:cut, bound'}],
     note=NOTE_FAM + ' Holes are clockwise, as elsewhere in the library. '
     'Polygons with a hole vertex inside an edge of the border are known '
     'findings.')

prop('C23', 'Views of parts behave as sequences',
     'vertices, segments, holes, polygons and triangles are read-only '
     'sequences of the parts in the order given: len, indexing from either '
     'end, slices of any start, stop and step (themselves such sequences, '
     'also when sliced again), in, index with bounds, count, reversed, '
     'iteration answer what a list of the parts answers, IndexError and '
     'ValueError included; such views are equal, and hash equal, when their '
     'parts are, and differ from lists and tuples.',
     'views of up to five parts, distinct or repeated, every index, slices '
     'with bounds inside and outside the range and steps of both signs',
     'tests of the views only draw valid indices and short slices.',
     ['rene/_geometries/base_contour.py', 'rene/_utils.py',
      'rene/_exact/contour.py', 'rene/_exact/polygon.py',
      'rene/_exact/multipolygon.py', 'rene/_exact/multisegment.py'],
     [{'name': 'sequence views', 'where': 'rene/_exact, rene/_geometries'}])

prop('C24', 'Geometries hold and show the parts they were given',
     'The accessors of a point, box, segment, contour, multisegment, polygon '
     'and multipolygon return the parts it was constructed from, in order; '
     'repr() is an expression which constructs the same geometry from the '
     'representations of its coordinates and str() the same with their '
     'strings; boxes are equal exactly when their four bounds are, and then '
     'have the same hash.',
     'geometries of up to three parts, by order type of coordinates',
     'tests of repr only look for the prefix of the class name.',
     ['rene/_geometries/base_point.py', 'rene/_geometries/base_box.py',
      'rene/_geometries/base_segment.py', 'rene/_geometries/base_contour.py',
      'rene/_geometries/base_polygon.py',
      'rene/_geometries/base_multisegment.py',
      'rene/_geometries/base_multipolygon.py', 'rene/_exact/box.py'],
     [{'name': 'representations', 'where': 'rene/_geometries: __repr__, '
       '__str__'}])

prop('C25', 'Geometries are values: operations change nothing',
     'No operation changes what can be read from its operands or from a '
     'list they were built from, and changing such a list later does not '
     'change the geometry; every operation asked again, after any other, '
     'gives the same outcome; the outcome does not depend on how an operand '
     'is represented (order of parts, direction of segments and of a '
     'contour, starting vertex).',
     'each pair of kinds of geometry, around two boxes, by order type, the '
     'four operators, relate_to, locate, in, ==, hash, is_valid, '
     'trapezoidation and triangulation, three times over',
     'the tests never use an operand twice.',
     ['rene/_geometries/base_contour.py', 'rene/_clipping', 'rene/_relating',
      'rene/_bentley_ottmann/base.py', 'rene/_utils.py',
      'rene/_triangulation/mesh.py'],
     [{'name': 'constructors and caches', 'where':
       'rene/_geometries, rene/_exact, rene/_context.py'}])

prop('C26', 'Enumerations have their documented members',
     'Location, Orientation and Relation have their documented members with '
     'distinct values, shown by repr() and str() as Name.MEMBER; '
     'Relation.complement is the converse relation (component/composite, '
     'cover/within, enclosed/encloses, the others their own) and is its own '
     'inverse.',
     'all members',
     'the tests check the involution only.',
     ['rene/enums.py'],
     [{'name': 'complement', 'where': 'rene/enums.py:Relation.complement'}],
     over=['configurations'], level='proof', note='All members are '
     'enumerated. Trusts the analyser\'s model of Python and of enum.')

prop('C27', 'Exactness at every scale and position',
     'No coordinate is rounded, truncated or converted to floating point, '
     'no tolerance is applied, and the outcome of every operation moves and '
     'scales with the operands: for every k > 0 and every shift, the outcome '
     'for operands scaled by k and shifted is that for the operands, '
     'likewise scaled and shifted (relations, locations, orientations and '
     'validity unchanged), however small or large the coordinates.',
     'samples of the families of the other checks; each sign asked and each '
     'coordinate of an outcome is a formula, judged for all scales and '
     'shifts at once',
     'tests draw coordinates of moderate size, for which a tolerance or a '
     'conversion to floating point goes unnoticed.',
     ['rene/_exact/__init__.py', 'rene/_exact/point.py',
      'rene/_bentley_ottmann', 'rene/_clipping', 'rene/_relating',
      'rene/_seidel', 'rene/_triangulation', 'rene/_utils.py'],
     [{'name': 'predicates', 'where': 'rene/_exact/__init__.py, '
       'rene/_utils.py'}],
     technique='abstract interpretation: invariance of the formulas behind '
     'every branch under scaling and translation')
