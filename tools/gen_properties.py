#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))
I = "include/lsst/sphgeom/"
S = "src/"

p("C01", "A range set behaves exactly like a set of 64-bit unsigned integers",
  "After any sequence of inserts, erasures, complements, unions, intersections, differences, symmetric differences, "
  "clears and fills (including on operands that are the same object, and with endpoints near 0 and 2^64), a range set "
  "contains exactly the integers that the mathematical set operations give, and its internal-validity check passes. "
  "Iterating it (forwards, backwards or by random access) yields sorted, disjoint, non-adjacent ranges; and every query - equality, emptiness, fullness, size, "
  "cardinality, contains, intersects, is-within, is-disjoint, for single values, ranges and other sets - "
  "agrees with the set it represents, so that equal sets always compare equal however they were built.",
  ["histories", "inputs"],
  "every finite history of mutating operations on several range sets, and every query argument, over all 64-bit endpoints including wrap-around (first >= last) ranges",
  "tests/testRangeSet.cc samples a handful of operations with a few endpoints; the set of operation histories and endpoint coincidences (adjacent, shared, nested, wrapping at 2^64) is unbounded.",
  [I+"RangeSet.h", S+"RangeSet.cc"],
  [("sorted offset array with 0/2^64 sentinels", I+"RangeSet.h _ranges/_offset"), ("linear merge of two range lists", S+"RangeSet.cc _intersect"), ("range insertion/erasure by binary search", S+"RangeSet.cc insert/erase/_insert")],
  [("_ranges", "sorted endpoints", I+"RangeSet.h"), ("_offset", "whether the first range starts at 0", I+"RangeSet.h")],
  ["begin/end iteration", "contains/intersects/isWithin", "operator=="])

p("C02", "Simplifying or scaling a range set is exact with respect to its definition",
  "Simplifying a range set by n yields exactly the smallest superset made of aligned blocks of 2^n integers (everything for large n), "
  "and scaling by i replaces every range [a, b) with [a*i, b*i), where bounds that reach or exceed 2^64 saturate at 2^64, giving the empty set for i = 0. "
  "The results are valid range sets, in-place and copying forms agree, and simplification never removes an integer.",
  ["inputs"],
  "all range sets, all simplification levels (including >= 64) and all scale factors whose products are representable",
  "tests check a few sets and levels; block boundaries, merging of neighbouring blocks and the 2^64 end each depend on exact endpoint coincidences.",
  [I+"RangeSet.h", S+"RangeSet.cc"],
  [("simplify: round endpoints outward and merge", S+"RangeSet.cc simplify"), ("scale: multiply endpoints", S+"RangeSet.cc scale")])

p("C03", "Real and angle intervals form a correct closed-interval algebra",
  "For closed intervals of reals (and of angles), including empty ones, NaN endpoints and infinities, contains, intersects, is-disjoint, is-within and the relationship bitset "
  "agree with the point sets the intervals denote. Clipping gives exactly the intersection, expanding gives exactly the smallest interval containing both operands, "
  "dilating/eroding by a finite amount moves both ends outwards/inwards by that amount leaving empty or full intervals alone, and the mutating and non-mutating forms agree.",
  ["inputs", "histories"],
  "all pairs of intervals and scalars over the extended reals including NaN, and all operation sequences on them",
  "tests use one or two interval pairs per operation; the algebra must hold for all orderings and coincidences of endpoints including empties.",
  [I+"Interval.h", I+"Interval1d.h", I+"AngleInterval.h", S+"Interval1d.cc", S+"AngleInterval.cc"],
  [("interval template", I+"Interval.h")])

p("C04", "Longitude intervals form a correct wrap-around interval algebra on the circle",
  "For normalized (circular) angle intervals, including empty, full, single-point and wrapping ones, contains, intersects, is-disjoint, is-within and the relationship bitset agree with the sets of angles they denote. "
  "Expanding yields a shortest interval that contains both operands (and is sound for every pair), clipping yields a smallest interval that contains the intersection, and dilating by d yields the angles within d of the interval (eroding for negative d), up to rounding. "
  "Size, center and wrap status describe the same set, and normalizing arbitrary endpoints preserves the angles spanned.",
  ["inputs", "histories"],
  "all pairs of circular intervals, all angles, and all sequences of expand/clip/dilate/erode operations",
  "tests enumerate a few wrapping pairs; the correctness cases split on the cyclic order of four endpoints and their coincidences, which tests do not cover (two wrapping operands were wrong).",
  [I+"NormalizedAngleInterval.h", S+"NormalizedAngleInterval.cc", I+"NormalizedAngle.h", S+"NormalizedAngle.cc"],
  [("wraps()-dependent case splits", S+"NormalizedAngleInterval.cc")])

p("C05", "Longitude-latitude boxes and 3-d boxes follow their component interval algebra",
  "A longitude-latitude box or a 3-dimensional box contains exactly the points whose every coordinate is in the corresponding interval, is empty exactly when one interval is empty (and then behaves as the unique empty box), and clipping, expanding, dilating, eroding and relating boxes are consistent with point membership. "
  "Latitudes never leave [-90, 90] degrees, the constructors from a center and half-extents produce boxes with those extents, and the reported width, height and area/center describe that same set.",
  ["inputs", "histories"],
  "all pairs of boxes over a lattice of endpoints including poles, wrapping longitudes, empty and full, all points, and sequences of mutating operations",
  "tests sample a few boxes; empty-normalisation, pole clamping and wrap-around only matter for particular combinations.",
  [I+"Box.h", S+"Box.cc", I+"Box3d.h", S+"Box3d.cc"],
  [("_enforceInvariants keeps boxes canonical", I+"Box.h"), ("interval products", I+"Box.h, "+I+"Box3d.h")])

p("C06", "The orientation predicate is exact",
  "For any three vectors with finite coordinates that are unit vectors (and for arbitrary finite vectors in the exact variant), the orientation predicate returns the true sign of the determinant of the three vectors, however close to degenerate they are. "
  "Consequently it is antisymmetric under swapping arguments, invariant under rotation of arguments, and the specialised forms for cross products with the coordinate axes agree with the general one.",
  ["inputs"],
  "all triples of double-precision vectors, including coplanar, antipodal, denormal and mixed-magnitude components",
  "tests sample a few near-degenerate triples; the bug-prone inputs are those where rounding flips the sign and where big-integer exponents and signs interact.",
  [I+"orientation.h", S+"orientation.cc", I+"BigInteger.h", S+"BigInteger.cc"],
  [("floating point filters", S+"orientation.cc orientation"), ("exact big-integer evaluation", S+"orientation.cc orientationExact"), ("sign-based fast paths", S+"orientation.cc orientationX/Y/Z")])

p("C07", "Big-integer arithmetic is exact within its capacity",
  "For any sequence of set, add, subtract, multiply, multiply-by-power-of-two and negate operations whose results fit the supplied storage, a big integer holds exactly the mathematical result with the correct sign and a canonical length, including when an operand is the object itself. "
  "An operation whose result needs more digits than the storage has reports an error and never writes beyond the storage.",
  ["histories", "inputs"],
  "all operation sequences over multi-digit signed integers with all-ones, power-of-two and cancelling digit patterns, all shift amounts, and all storage capacities",
  "tests exercise a few products and sums; carry/borrow propagation, normalisation after cancellation and shift amounts relative to the digit width depend on rare digit patterns.",
  [I+"BigInteger.h", S+"BigInteger.cc"],
  [("schoolbook digit loops", S+"BigInteger.cc _add/_sub/_mul"), ("capacity checks", I+"BigInteger.h _checkCapacity")],
  [("_size/_capacity/_sign", "length, storage and sign", I+"BigInteger.h")])

p("C08", "Conversions between vectors, unit vectors and spherical coordinates are faithful",
  "Normalizing any non-zero finite vector (however tiny or huge its components) gives a unit-length vector with the same direction, normalizing the zero vector is reported as an error, and NaN components never touch memory outside the vector. "
  "Converting longitude/latitude to a unit vector and back, to and from any non-zero vector of any magnitude, returns the same position up to rounding with longitude in [0, 360] and latitude in [-90, 90] degrees, out-of-range latitudes are rejected, and a NaN in either coordinate makes both NaN. "
  "Vectors derived from unit vectors (orthogonal, robust cross product, rotation, north) have the right direction even for nearly or exactly (anti)parallel inputs, and the angle, midpoint and difference of two angles or positions are the true ones up to rounding.",
  ["inputs"],
  "all finite vectors over the full exponent range, all longitude/latitude pairs, all pairs of unit vectors including parallel and antipodal ones",
  "tests use ordinary vectors and a few extreme ones; scaling, sign and branch decisions depend on the exponents of each component and on coordinate coincidences.",
  [I+"Vector3d.h", S+"Vector3d.cc", I+"UnitVector3d.h", S+"UnitVector3d.cc", I+"LonLat.h", S+"LonLat.cc", S+"NormalizedAngle.cc"],
  [("division by the largest component before normalization", S+"Vector3d.cc normalize"), ("atan2 based conversions", S+"LonLat.cc"), ("robust cross product and orthogonal vectors", S+"UnitVector3d.cc")])

p("C09", "Space-filling-curve index functions are bijections with the curve's structure",
  "Interleaving two 32-bit coordinates into a Morton or Hilbert index and inverting it are mutually inverse bijections for every order, and converting between Morton and Hilbert indexes agrees with going through the coordinates. "
  "Morton indexes equal the bit-interleaving of their coordinates, consecutive Hilbert indexes are grid neighbours starting at the origin, dropping the last two bits of a Hilbert or Morton index gives the index of the parent cell one order coarser, and the integer logarithms return the position of the highest set bit.",
  ["inputs"],
  "all orders m in 1..32 and all coordinates/indexes of that order",
  "tests cover small orders exhaustively and nothing structural at large orders; every implementation variant (table driven, bit twiddling, vector instructions) must agree on all bits.",
  [I+"curve.h"],
  [("magic-mask interleaving", I+"curve.h mortonIndex"), ("lookup-table state machines", I+"curve.h mortonToHilbert/hilbertToMorton"), ("log2", I+"curve.h")])

p("C10", "Serialization round-trips every region exactly",
  "Encoding any region (box, circle, ellipse, polygon, and unions/intersections nested to any depth, including empty and full ones) and decoding the bytes gives a region of the same type that compares equal, has identical geometry bit for bit, answers every membership query the same way and re-encodes to the same bytes. "
  "The generic and type-specific decoders agree; the byte format is the fixed little-endian layout, identified by its type code and independent of build options and history.",
  ["inputs", "histories"],
  "all regions of all types with all field values, and all nestings to any depth the stack allows",
  "tests round-trip one or two instances per type; a wrong field order or lost field only shows for values where the fields differ, and nesting is unbounded.",
  [I+"codec.h", S+"Region.cc", S+"Box.cc", S+"Circle.cc", S+"Ellipse.cc", S+"ConvexPolygon.cc", S+"CompoundRegion.cc"],
  [("type codes and little-endian doubles", I+"codec.h"), ("per-type encode/decode", S+"*.cc decode")])

p("C11", "Decoding arbitrary bytes is memory-safe and rejects malformed input",
  "Decoding any byte string - truncated, extended, with a foreign type code, with inconsistent inner lengths or arbitrary field values - either returns a region that can be re-encoded and used safely or raises an error; it never reads outside the buffer, crashes, or loops. "
  "Every strict prefix and every extension of a valid encoding (other than dropping or adding whole vertices of a polygon, which encodes another polygon) is rejected, by the generic decoder and by each type-specific one, and a type-specific decoder rejects encodings of other types.",
  ["inputs", "fault_sequences"],
  "all byte strings obtained from valid encodings by truncation at every length, extension, replacement of every byte or length field, and all short byte strings",
  "tests decode only well-formed strings; length checks and nested length fields are only exercised by malformed input.",
  [S+"Region.cc", S+"CompoundRegion.cc", S+"ConvexPolygon.cc", S+"Box.cc", S+"Circle.cc", S+"Ellipse.cc", I+"codec.h"],
  [("length and type-code checks", S+"*.cc decode"), ("nested length fields", S+"CompoundRegion.cc _decode")])

p("C12", "Spatial relationships reported between regions are never wrong",
  "For any two regions of any types, if relate reports disjoint then no point is (clearly) in both, and if it reports contains/within then no point of the contained region is (clearly) outside the other. "
  "Between simple regions, relating B to A gives exactly the mirrored answer, non-empty regions are never both disjoint and nested, an empty region is disjoint from everything and (except where relations are defined through bounds: with ellipses, and of a polygon with a box) within everything. "
  "A region's membership test agrees with the plain geometric meaning of its parameters, and for pairs of circles, of boxes, of polygons, of a circle and a polygon, or of a circle and a box (away from the meridian where an all-longitude box is cut) that are clearly separated or clearly nested the relation is reported conclusively.",
  ["inputs"],
  "all ordered pairs of regions of all types (boxes, circles, ellipses, polygons, compounds; empty, full, degenerate, polar, wrapping, hemispherical, complement-sized, nested, touching, antipodal) and all points",
  "tests relate a few dozen hand-picked pairs; the correct answer depends on the relative position of two regions, and on special positions such as poles, antipodes and large radii.",
  [S+"Box.cc", S+"Circle.cc", S+"Ellipse.cc", S+"ConvexPolygon.cc", S+"ConvexPolygonImpl.h", S+"CompoundRegion.cc", I+"Relationship.h", S+"utils.cc"],
  [("double dispatch + invert", I+"Region.h, "+I+"Relationship.h"), ("pairwise geometric tests with error margins", S+"*.cc relate")])

p("C13", "Bounding boxes, bounding circles and 3-d bounding boxes contain their region",
  "For every region of every type, each of its bounding box, bounding circle and 3-dimensional bounding box contains every point of the region, with no exception near the poles, across the longitude wrap, for regions larger than a hemisphere, or for extremely small regions. "
  "Bounds of empty regions are empty, and bounds are tight up to rounding where the shape determines them: a circle's own bounding circle is itself, a box's own bounding box is itself, and the bounding box of a circle or polygon not near special positions does not exceed the true extent significantly.",
  ["inputs"],
  "all regions of all types and all points of each region, including its extreme points",
  "tests check a few regions; failure needs an extreme point at a special place (pole inside polygon, edge bulging past its endpoints in latitude, complement-sized circle).",
  [S+"Box.cc", S+"Circle.cc", S+"Ellipse.cc", S+"ConvexPolygon.cc", S+"ConvexPolygonImpl.h", S+"CompoundRegion.cc"],
  [("bounding computations with error padding", S+"*.cc getBounding*")])

p("C14", "Polygon construction computes the true spherical convex hull",
  "Building a polygon from points gives a convex polygon in counter-clockwise order that contains all the input points, has only input points as vertices and omits no extreme point, and the result does not depend on the order or duplication of the input points. "
  "Points that are too few, all on one great circle, or not containable in an open hemisphere are rejected with an error rather than giving a wrong polygon; membership in the polygon is then exactly the intersection of the half-spaces of its edges, and the centroid lies inside (up to rounding, which matters for polygons thinner than about 1e-7 radians only).",
  ["inputs"],
  "all ordered point lists (with repeats) over point sets including antipodal, coplanar, hemispherical and nearly identical points",
  "tests try a few point lists; the hull algorithm's cases depend on insertion order, which grows factorially.",
  [S+"ConvexPolygon.cc", S+"ConvexPolygonImpl.h", I+"ConvexPolygon.h", S+"orientation.cc"],
  [("incremental hull with exact orientation tests", S+"ConvexPolygon.cc computeHull")])

p("C15", "Unions and intersections of regions mean point-set union and intersection",
  "A compound region contains a point exactly when at least one operand (union) or every operand (intersection) contains it, for any operands including compounds and empty or duplicated regions, and flattening its operand list preserves them in order. "
  "Its relationships to other regions and its bounds are sound, copies and clones are deep and independent of the original, and compound algebra built from operators or text-free constructors is equivalent.",
  ["inputs", "histories"],
  "all compound expressions up to a depth over an operand alphabet, all points, all other regions",
  "tests use one or two two-operand compounds; three-way and nested compounds with overlapping, nested and empty operands are not covered.",
  [I+"CompoundRegion.h", S+"CompoundRegion.cc", S+"Region.cc"],
  [("two-operand recursion", S+"CompoundRegion.cc"), ("bitmask combination of relationships", S+"CompoundRegion.cc relate")])

p("C16", "Every pixelization partitions the sphere into its advertised pixels",
  "For the triangular-mesh and both cube-based pixelizations at every supported level, each unit vector is assigned exactly one index, that index is in the universe, and the pixel region of the index contains the vector (up to rounding for the triangular mesh, exactly for the cube pixels, whose regions are dilated for that purpose); the pixel at a coarser level of the same point is the parent index. "
  "Pixel regions of distinct indexes do not overlap in their interiors, every index in the universe is the index of its own pixel's center, invalid indexes are rejected (with an error or level -1; a mesh index that is valid at another level stands for that level's triangle), and the string form of an index is unique and round-trips where parsing is offered.",
  ["inputs", "configurations"],
  "all levels of all three pixelizations, all unit vectors including face corners, edges, axes and points within rounding of pixel boundaries, and all indexes valid or not",
  "tests sample a few points and levels; ties on face edges and corners, and the numbering at deep levels, are not exhaustively covered.",
  [S+"HtmPixelization.cc", S+"Q3cPixelization.cc", S+"Mq3cPixelization.cc", S+"Q3cPixelizationImpl.h", I+"curve.h"],
  [("root triangle/face selection", S+"HtmPixelization.cc, "+S+"Q3cPixelizationImpl.h"), ("grid coordinate <-> curve index", S+"Q3cPixelization.cc, "+S+"Mq3cPixelization.cc")])

p("C17", "Pixel envelopes are never too small and pixel interiors never too big",
  "For every region type, pixelization, level and range cap, the envelope contains the index of every point of the region (every pixel that clearly overlaps it) and the interior contains only pixels entirely inside the region; both are subsets of the universe, and the interior is within the envelope. "
  "With a non-zero cap the number of ranges does not exceed the cap and the result is still a superset (envelope) or subset (interior) of the uncapped answer, while without a cap no pixel that is clearly disjoint from the region's simple shape (circle, polygon) is in the envelope and no pixel clearly inside it is missing from the interior.",
  ["inputs", "configurations"],
  "all regions of all types, all levels, all range caps, all pixels",
  "tests check a few circles at one level and never small range caps; the traversal's state (current level, shift, collapsed ranges) has many interleavings with the pixel tree.",
  [S+"PixelFinder.h", S+"HtmPixelization.cc", S+"Q3cPixelization.cc", S+"Mq3cPixelization.cc", S+"RangeSet.cc"],
  [("top-down traversal with level reduction", S+"PixelFinder.h PixelFinder/findPixels")])

p("C18", "Cube-pixel neighborhoods are exactly the pixels that touch a pixel",
  "For the cube-based pixelizations that report neighbours, the neighborhood of a pixel is exactly the set of pixels sharing an edge or a corner with it, plus the pixel itself, sorted and without duplicates: eight neighbours in general and seven at the eight cube corners. "
  "The relation is symmetric, works across all twelve cube edges, and invalid indexes are rejected.",
  ["inputs", "configurations"],
  "all pixels at all levels",
  "tests check only low-level symmetry or a few pixels; wrap-around across each cube edge and corner is table driven.",
  [S+"Q3cPixelization.cc", S+"Mq3cPixelization.cc", S+"Q3cPixelizationImpl.h"],
  [("face adjacency tables", S+"Q3cPixelization.cc, "+S+"Mq3cPixelization.cc")])

p("C19", "The chunker partitions the sky and never misses a chunk",
  "For every stripe and sub-stripe configuration, the bounding boxes of the chunks cover the sphere without overlapping interiors, those of a chunk's sub-chunks cover the chunk the same way, chunk ids (and sub-chunk ids within a chunk) are unique and valid, chunks are at least as wide as the stripe is tall in angular separation, and stripe/chunk numbers are recovered from ids. "
  "For any region, the chunks and sub-chunks reported as intersecting include every one that contains a point of the region, contain no duplicates and only existing ids, and those clearly away from the region are not reported; invalid configurations and ids are rejected.",
  ["inputs", "configurations"],
  "all chunker configurations, all chunk ids (valid or not) and all regions",
  "tests use one configuration and two or three regions; stripe geometry at the poles and longitude wrap-around vary with the configuration.",
  [I+"Chunker.h", S+"Chunker.cc"],
  [("computeNumSegments / chunk widths", S+"Chunker.cc"), ("wrap-around range loops", S+"Chunker.cc getChunksIntersecting/_getSubChunks")])

p("C20", "All build configurations compute identical results",
  "The vectorised, table-driven and plain-C++ code paths that the build options select between produce identical results for every public operation - vector normalisation, unit-vector predicates, curve indexes, logarithms, pixel indexes, encodings, relationships. "
  "Data written by a build with one configuration can be read by a build with another.",
  ["configurations", "inputs"],
  "all pairs of build configurations and all inputs",
  "the test suite is only ever run in one configuration, so a disagreement between variants is never visible.",
  [S+"Vector3d.cc", I+"curve.h", I+"codec.h", S+"Q3cPixelization.cc", S+"Mq3cPixelization.cc", I+"Q3cPixelization.h", S+"Q3cPixelizationImpl.h"],
  [("NO_SIMD / NO_OPTIMIZED_PATHS conditionals", S+"Vector3d.cc, "+I+"curve.h, "+I+"codec.h, "+S+"Q3cPixelizationImpl.h")])

p("C21", "Editing circles and ellipses preserves their geometric meaning",
  "A circle contains exactly the points within its opening angle of its center; clipping to another circle or point keeps every common point, expanding keeps every point of both operands, dilation and erosion change the opening angle by the given amount, the complement contains exactly the points not strictly inside, and empty and full circles are absorbing/neutral as sets. "
  "An ellipse contains exactly the points whose angular distances to its two foci add up to at most twice its semi-major angle (up to rounding), its reported foci, center, semi-axes and orientation describe that same set, and its complement is the complementary set.",
  ["inputs", "histories"],
  "all circles, ellipses, points, and sequences of editing operations",
  "tests apply single operations to a few circles; sequences that pass through empty, full, nested or nearly-nested states are not covered.",
  [I+"Circle.h", S+"Circle.cc", I+"Ellipse.h", S+"Ellipse.cc"],
  [("squared chord length and opening angle kept in step", I+"Circle.h, "+S+"Circle.cc"), ("ellipse as a quadratic form", S+"Ellipse.cc")],
  [("_squaredChordLength/_openingAngle", "two representations of the radius", I+"Circle.h")])

p("C22", "The Python interface exposes the same behaviour and value semantics",
  "Every class exposed to Python gives the same answers as the underlying library for the same arguments: construction, properties, operators, equality, copying, pickling, repr round-trip (up to rounding for unit vectors and the shapes made of them), YAML round-trip, iteration and indexing (including negative and out-of-range indexes), and vectorised membership agrees element by element with the scalar form for arrays of any shape. "
  "Values of the wrong type or out of range raise a Python exception and never crash or silently give a wrong value, and objects that offer equality (all but compound regions) compare equal exactly when their values are equal, with equality against foreign types being false.",
  ["inputs", "histories"],
  "all exposed classes and methods with all argument values of an alphabet, and all copy/pickle/repr chains",
  "tests check one or two values per method; a binding wired to the wrong function or with swapped arguments is invisible when values coincide.",
  ["python/lsst/sphgeom/_rangeSet.cc", "python/lsst/sphgeom/_box.cc", "python/lsst/sphgeom/_circle.cc", "python/lsst/sphgeom/_convexPolygon.cc", "python/lsst/sphgeom/_ellipse.cc", "python/lsst/sphgeom/_region.cc", "python/lsst/sphgeom/_yaml.py", I+"python.h"],
  [("pybind11 bindings", "python/lsst/sphgeom/*.cc"), ("YAML representers", "python/lsst/sphgeom/_yaml.py")])

p("C23", "HEALPix envelopes and interiors are sound and its pixels partition the sphere",
  "For the Python HEALPix pixelization at any level up to its MAX_LEVEL, each position has exactly one index in the universe, which is the standard nested HEALPix index, and its pixel region contains the position up to the sampling of the curved pixel outline. "
  "For every box, circle, ellipse and convex polygon the envelope contains the index of every point of the region (even for regions much smaller than a pixel, empty, full or with holes) and no far-away pixels, and the interior contains only pixels inside the region (up to slivers between the sampled outline points) and misses none that is clearly inside; compound regions, degenerate polygons and range caps are handled correctly or rejected with an error. "
  "Invalid levels and indexes are rejected and equality compares level and type.",
  ["inputs", "configurations"],
  "all levels, regions, range caps and positions",
  "tests check a few circles and boxes at one level; tiny regions, polar regions and range caps are not covered.",
  ["python/lsst/sphgeom/_healpixPixelization.py", "python/lsst/sphgeom/pixelization_abc.py"],
  [("oversampled query with bit shift", "python/lsst/sphgeom/_healpixPixelization.py")])

p("C24", "Read-only operations are pure: no history or interleaving changes an answer",
  "Read-only operations (membership, relationships, bounds, encoding, decoding, pixel indexing, envelopes, chunk queries) on shared regions, pixelizations and chunkers give the same result whatever operations were performed before, in whatever order, and whatever other threads are performing concurrently on the same objects; they leave their operands unchanged. "
  "Objects that were copied, moved into or assigned (including self-assignment) are independent values.",
  ["schedules", "histories"],
  "all sequences of read-only operations up to a depth on shared objects and all interleavings of two threads up to a preemption bound",
  "tests are single-threaded and run each operation once from a fresh state, so hidden shared state (cached scratch, static buffers) is invisible.",
  [S+"PixelFinder.h", S+"ConvexPolygon.cc", S+"HtmPixelization.cc", S+"Q3cPixelization.cc", S+"Mq3cPixelization.cc", S+"orientation.cc", S+"Chunker.cc", S+"Ellipse.cc"],
  [("absence of mutable shared state", "src/*.cc"), ("per-call stack buffers", S+"orientation.cc, "+S+"PixelFinder.h")])

p("C25", "Vector and matrix arithmetic is exact linear algebra on exact inputs",
  "Wherever the exact result and all intermediate products are representable in double precision, every vector, unit vector and 3x3 matrix operation gives the mathematically exact result: sums, differences, scaling, quotients, dot, cross and component-wise products, norms, matrix-vector and matrix-matrix products, transposes, diagonal and scaled identity matrices, row, column and element access, and equality. "
  "Inverting an invertible matrix gives the adjugate divided by the determinant to within rounding, whatever the scale of the matrix, and rotations by multiples of a quarter turn permute and negate coordinates by the right-hand rule. "
  "In-place forms, and operations whose operands are the same object, agree with the two-operand forms, leave the other operands unchanged, and any sequence of operations on several vectors and matrices gives what the same sequence of exact operations gives.",
  ["inputs", "histories"],
  "all vectors and matrices with exactly representable results, and all sequences of operations on several of them",
  "tests evaluate a couple of matrices and vectors whose symmetries hide a transposed index or an exchanged operand.",
  [I+"Vector3d.h", I+"UnitVector3d.h", I+"Matrix3d.h", S+"Vector3d.cc"],
  [("matrix as three column vectors", I+"Matrix3d.h _c"), ("SIMD and plain component arithmetic", I+"Vector3d.h")])

p("C26", "The printed form of a value carries the value exactly",
  "Streaming an angle, interval, vector, matrix, position, box, circle, ellipse, convex polygon or range set to an output stream writes well-formed nested text (class name, brackets, comma-separated numbers) that is never truncated or run together, whose numbers read back as exactly the values the object holds - including denormal, huge, negative-zero, infinite and not-a-number values and 64-bit range ends - in the documented order. "
  "The text does not depend on the stream's floating-point formatting or on what was printed before, and printing leaves the stream's state and the object unchanged.",
  ["inputs", "histories"],
  "all values of every printable class and all stream formatting states",
  "tests print almost nothing; loss of digits or a buffer too short by one shows only for the longest spellings.",
  [S+"Angle.cc", S+"Interval1d.cc", S+"Vector3d.cc", S+"Circle.cc", S+"Ellipse.cc", S+"Box.cc", S+"ConvexPolygon.cc", S+"RangeSet.cc"],
  [("fixed-size buffers with 17 significant digits", S+"Vector3d.cc, "+S+"Circle.cc, "+S+"Interval1d.cc"), ("nested operator<<", S+"Ellipse.cc, "+S+"Box.cc")])

p("C27", "Comparison operators compare values exactly",
  "For every comparable class - angles, vectors, matrices, positions, intervals, boxes, circles, ellipses, convex polygons, range sets and chunkers - two objects compare equal exactly when their defining parameters are the same: not when they differ by one unit in the last place of a single parameter, and always when one is a copy or clone of the other. "
  "All empty intervals are equal, all empty boxes are equal, all empty circles are equal and all full circles are equal; polygons are equal exactly when they have the same cycle of vertices, whichever vertex comes first; range sets are equal exactly when they contain the same integers. "
  "Inequality is the negation of equality, equality is symmetric, angle order comparisons are those of their radians (false with NaN), and comparing an interval, unit vector or normalized angle with a plain value or plain counterpart follows the same rule.",
  ["inputs"],
  "all pairs of values of every comparable class",
  "tests compare a few very different objects with each other and identical objects with themselves; near-equal objects and rotated vertex lists are not compared.",
  [I+"Interval.h", I+"NormalizedAngleInterval.h", I+"Box.h", I+"Box3d.h", I+"Circle.h", I+"Ellipse.h", S+"ConvexPolygon.cc", I+"RangeSet.h", I+"Chunker.h", I+"Angle.h", I+"Matrix3d.h"],
  [("operator== and operator!=", I+"*.h"), ("cyclic comparison of vertices", S+"ConvexPolygon.cc operator==")])

p("C28", "IVOA POS strings and YAML documents mean the same regions in both directions",
  "A CIRCLE, RANGE or POLYGON string in IVOA POS syntax (degrees, any amount of white space, any spelling of numbers, infinite bounds of ranges) is converted to the circle, box or convex polygon with exactly these parameters, which contains exactly the positions the string describes, through whichever region class the conversion is called. "
  "Circles, boxes and convex polygons are converted to strings that list their parameters in degrees and convert back to the same region up to rounding; other regions have no such string and are refused. "
  "Strings with an unknown or misspelled shape, the wrong count of numbers, unreadable numbers, latitudes out of range or vertices without a convex hull raise ValueError. "
  "A YAML document of a region carries its class name as tag and its encoding in hexadecimal, one of a pixelization its class and level; every YAML loader turns such documents, also hand-written ones, into exactly that object, and defective ones raise an exception.",
  ["inputs"],
  "all strings over alphabets of number spellings, all regions of the convertible classes, all loaders and documents",
  "tests convert a handful of strings; wrapping ranges, infinite bounds, precision of the numbers and argument counts are not covered systematically.",
  ["python/lsst/sphgeom/_continue_class.py", "python/lsst/sphgeom/_yaml.py"],
  [("POS parser and writer", "python/lsst/sphgeom/_continue_class.py"), ("YAML representers", "python/lsst/sphgeom/_yaml.py")])

p("C29", "Centroids and extreme distances are the true ones",
  "For any three distinct directions in counterclockwise order, of which no two are opposite, the weighted centroid of a triangle is its first moment up to a few units in the last place of the lengths of its edges, whatever the lengths of the edges (right angles and more included); it is the same for every starting vertex and adds up when the triangle is split. "
  "The centroid of a convex polygon is the direction of the first moment of the polygon. "
  "The smallest and largest squared chord length between a point and a segment of a great circle are those of the nearest and furthest point of the great circle if that lies inside the segment (and 4 and 0, the neutral values, if not), for arguments of any length; the smallest and largest angle between a latitude and a circle of constant latitude are |a - b| and pi - |a + b|.",
  ["inputs"],
  "all triples of distinct directions without opposite pairs, all convex polygons, all points, segments and latitudes",
  "tests integrate one octant-sized triangle numerically and check distances for a few points; edges of a right angle or more, tiny and thin triangles and arguments of other lengths than one are not covered.",
  ["src/utils.cc", "include/lsst/sphgeom/utils.h", "src/ConvexPolygon.cc", "src/ConvexPolygonImpl.h"],
  [("weighted centroid", "src/utils.cc"), ("polygon centroid", "src/ConvexPolygonImpl.h")])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
