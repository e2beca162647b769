"""The keyword names of the arguments of the Python operations, as documented."""
TABLE = [
    ('@mortonIndex', ['u32', 'u32'], ['x', 'y']),
    ('@mortonIndexInverse', ['u64'], ['z']),
    ('@mortonToHilbert', ['u64', 'int'], ['z', 'm']),
    ('@hilbertToMorton', ['u64', 'int'], ['h', 'm']),
    ('@hilbertIndex', ['u32', 'u32', 'int'], ['x', 'y', 'm']),
    ('@hilbertIndexInverse', ['u64', 'int'], ['h', 'm']),
    ('@orientation', ['UnitVector3d', 'UnitVector3d', 'UnitVector3d'], ['a', 'b', 'c']),
    ('@orientationX', ['UnitVector3d', 'UnitVector3d'], ['b', 'c']),
    ('@orientationY', ['UnitVector3d', 'UnitVector3d'], ['b', 'c']),
    ('@orientationZ', ['UnitVector3d', 'UnitVector3d'], ['b', 'c']),
    ('@getMinAngleToCircle', ['Angle', 'Angle'], ['x', 'c']),
    ('@getMaxAngleToCircle', ['Angle', 'Angle'], ['x', 'c']),
    ('@getWeightedCentroid', ['UnitVector3d', 'UnitVector3d', 'UnitVector3d'], ['vector0', 'vector1', 'vector2']),
    ('@invert', ['rel'], ['relationship']),
    ('Angle()', ['double'], ['radians']),
    ('Angle()', ['Angle'], ['angle']),
    ('Angle()', ['NormalizedAngle'], ['angle']),
    ('NormalizedAngle::between', ['NormalizedAngle', 'NormalizedAngle'], ['a', 'b']),
    ('NormalizedAngle::center', ['NormalizedAngle', 'NormalizedAngle'], ['a', 'b']),
    ('NormalizedAngle()', ['double'], ['radians']),
    ('NormalizedAngle()', ['LonLat', 'LonLat'], ['a', 'b']),
    ('NormalizedAngle()', ['Vector3d', 'Vector3d'], ['a', 'b']),
    ('LonLat()', ['NormalizedAngle', 'Angle'], ['lon', 'lat']),
    ('LonLat()', ['Vector3d'], ['vector']),
    ('Vector3d()', ['double', 'double', 'double'], ['x', 'y', 'z']),
    ('Vector3d()', ['Vector3d'], ['vector']),
    ('Vector3d.rotatedAround', ['Vector3d', 'UnitVector3d', 'Angle'], ['axis', 'angle']),
    ('UnitVector3d::orthogonalTo', ['Vector3d'], ['vector']),
    ('UnitVector3d::orthogonalTo', ['Vector3d', 'Vector3d'], ['vector1', 'vector2']),
    ('UnitVector3d::orthogonalTo', ['NormalizedAngle'], ['meridian']),
    ('UnitVector3d::northFrom', ['Vector3d'], ['vector']),
    ('UnitVector3d()', ['UnitVector3d'], ['unitVector']),
    ('UnitVector3d()', ['Vector3d'], ['vector']),
    ('UnitVector3d()', ['double', 'double', 'double'], ['x', 'y', 'z']),
    ('UnitVector3d()', ['LonLat'], ['lonLat']),
    ('UnitVector3d()', ['Angle', 'Angle'], ['lon', 'lat']),
    ('UnitVector3d.rotatedAround', ['UnitVector3d', 'UnitVector3d', 'Angle'], ['axis', 'angle']),
    ('Matrix3d()', ['double', 'double', 'double', 'double', 'double', 'double', 'double', 'double', 'double'], ['m00', 'm01', 'm02', 'm10', 'm11', 'm12', 'm20', 'm21', 'm22']),
    ('Matrix3d()', ['Vector3d'], ['diagonal']),
    ('Matrix3d()', ['double'], ['scale']),
    ('Matrix3d()', ['Matrix3d'], ['matrix']),
    ('Matrix3d.inner', ['Matrix3d', 'Matrix3d'], ['matrix']),
    ('AngleInterval()', ['Angle'], ['x']),
    ('AngleInterval()', ['Angle', 'Angle'], ['x', 'y']),
    ('AngleInterval()', ['AngleInterval'], ['interval']),
    ('NormalizedAngleInterval()', ['NormalizedAngle'], ['x']),
    ('NormalizedAngleInterval()', ['NormalizedAngle', 'NormalizedAngle'], ['x', 'y']),
    ('NormalizedAngleInterval()', ['NormalizedAngleInterval'], ['angleInterval']),
    ('Interval1d()', ['double'], ['x']),
    ('Interval1d()', ['double', 'double'], ['x', 'y']),
    ('Interval1d()', ['Interval1d'], ['interval']),
    ('AngleInterval::fromDegrees', ['double', 'double'], ['x', 'y']),
    ('AngleInterval::fromRadians', ['double', 'double'], ['x', 'y']),
    ('NormalizedAngleInterval::fromDegrees', ['double', 'double'], ['x', 'y']),
    ('NormalizedAngleInterval::fromRadians', ['double', 'double'], ['x', 'y']),
    ('NormalizedAngleInterval()', ['Angle'], ['x']),
    ('NormalizedAngleInterval()', ['Angle', 'Angle'], ['x', 'y']),
    ('Box3d()', ['Vector3d'], ['vector']),
    ('Box3d()', ['Vector3d', 'Vector3d'], ['vector1', 'vector2']),
    ('Box3d()', ['Vector3d', 'double', 'double', 'double'], ['center', 'halfWidth', 'halfHeight', 'halfDepth']),
    ('Box3d()', ['Interval1d', 'Interval1d', 'Interval1d'], ['x', 'y', 'z']),
    ('Box3d()', ['Box3d'], ['box3d']),
    ('Box3d.contains', ['Box3d', 'double', 'double', 'double'], ['x', 'y', 'z']),
    ('Box3d.dilateBy', ['Box3d', 'double'], ['radius']),
    ('Box3d.dilatedBy', ['Box3d', 'double'], ['radius']),
    ('Box3d.erodeBy', ['Box3d', 'double'], ['radius']),
    ('Box3d.erodedBy', ['Box3d', 'double'], ['radius']),
    ('Box3d.dilateBy', ['Box3d', 'double', 'double', 'double'], ['width', 'height', 'depth']),
    ('Box3d.dilatedBy', ['Box3d', 'double', 'double', 'double'], ['width', 'height', 'depth']),
    ('Box3d.erodeBy', ['Box3d', 'double', 'double', 'double'], ['width', 'height', 'depth']),
    ('Box3d.erodedBy', ['Box3d', 'double', 'double', 'double'], ['width', 'height', 'depth']),
    ('Box.contains', ['Box', 'double', 'double', 'double'], ['x', 'y', 'z']),
    ('Box.contains', ['Box', 'double', 'double'], ['lon', 'lat']),
    ('Box.relate', ['Box', 'Region'], ['region']),
    ('Circle.contains', ['Circle', 'double', 'double', 'double'], ['x', 'y', 'z']),
    ('Circle.contains', ['Circle', 'double', 'double'], ['lon', 'lat']),
    ('Circle.relate', ['Circle', 'Region'], ['region']),
    ('Ellipse.contains', ['Ellipse', 'UnitVector3d'], ['unitVector']),
    ('Ellipse.contains', ['Ellipse', 'double', 'double', 'double'], ['x', 'y', 'z']),
    ('Ellipse.contains', ['Ellipse', 'double', 'double'], ['lon', 'lat']),
    ('Ellipse.relate', ['Ellipse', 'Region'], ['region']),
    ('ConvexPolygon.contains', ['ConvexPolygon', 'double', 'double', 'double'], ['x', 'y', 'z']),
    ('ConvexPolygon.contains', ['ConvexPolygon', 'double', 'double'], ['lon', 'lat']),
    ('ConvexPolygon.relate', ['ConvexPolygon', 'Region'], ['region']),
    ('UnionRegion.contains', ['UnionRegion', 'UnitVector3d'], ['unitVector']),
    ('UnionRegion.contains', ['UnionRegion', 'double', 'double', 'double'], ['x', 'y', 'z']),
    ('UnionRegion.contains', ['UnionRegion', 'double', 'double'], ['lon', 'lat']),
    ('UnionRegion.relate', ['UnionRegion', 'Region'], ['region']),
    ('IntersectionRegion.contains', ['IntersectionRegion', 'UnitVector3d'], ['unitVector']),
    ('IntersectionRegion.contains', ['IntersectionRegion', 'double', 'double', 'double'], ['x', 'y', 'z']),
    ('IntersectionRegion.contains', ['IntersectionRegion', 'double', 'double'], ['lon', 'lat']),
    ('IntersectionRegion.relate', ['IntersectionRegion', 'Region'], ['region']),
    ('Region::decode', ['bytes'], ['bytes']),
    ('Box::decode', ['bytes'], ['bytes']),
    ('Circle::decode', ['bytes'], ['bytes']),
    ('Ellipse::decode', ['bytes'], ['bytes']),
    ('ConvexPolygon::decode', ['bytes'], ['bytes']),
    ('UnionRegion::decode', ['bytes'], ['bytes']),
    ('Box::fromDegrees', ['double', 'double', 'double', 'double'], ['lon1', 'lat1', 'lon2', 'lat2']),
    ('Box::fromRadians', ['double', 'double', 'double', 'double'], ['lon1', 'lat1', 'lon2', 'lat2']),
    ('Box::halfWidthForCircle', ['Angle', 'Angle'], ['radius', 'lat']),
    ('Box()', ['LonLat'], ['point']),
    ('Box()', ['LonLat', 'LonLat'], ['point1', 'point2']),
    ('Box()', ['LonLat', 'Angle', 'Angle'], ['center', 'width', 'height']),
    ('Box()', ['NormalizedAngleInterval', 'AngleInterval'], ['lon', 'lat']),
    ('Box()', ['Box'], ['box']),
    ('Box.relate', ['Box', 'LonLat'], ['point']),
    ('Box.dilateBy', ['Box', 'Angle'], ['angle']),
    ('Box.dilateBy', ['Box', 'Angle', 'Angle'], ['width', 'height']),
    ('Circle.dilateBy', ['Circle', 'Angle'], ['radius']),
    ('Box.dilatedBy', ['Box', 'Angle'], ['angle']),
    ('Box.dilatedBy', ['Box', 'Angle', 'Angle'], ['width', 'height']),
    ('Circle.dilatedBy', ['Circle', 'Angle'], ['radius']),
    ('Box.erodeBy', ['Box', 'Angle'], ['angle']),
    ('Box.erodeBy', ['Box', 'Angle', 'Angle'], ['width', 'height']),
    ('Circle.erodeBy', ['Circle', 'Angle'], ['radius']),
    ('Box.erodedBy', ['Box', 'Angle'], ['angle']),
    ('Box.erodedBy', ['Box', 'Angle', 'Angle'], ['width', 'height']),
    ('Circle.erodedBy', ['Circle', 'Angle'], ['radius']),
    ('Box.dilatedBy', ['Box', 'NormalizedAngle'], ['angle']),
    ('Circle::squaredChordLengthFor', ['Angle'], ['openingAngle']),
    ('Circle::openingAngleFor', ['double'], ['squaredChordLength']),
    ('Circle()', ['UnitVector3d'], ['center']),
    ('Circle()', ['UnitVector3d', 'Angle'], ['center', 'angle']),
    ('Circle()', ['UnitVector3d', 'double'], ['center', 'squaredChordLength']),
    ('Circle()', ['Circle'], ['circle']),
    ('Circle()', ['UnitVector3d', 'NormalizedAngle'], ['center', 'angle']),
    ('Ellipse()', ['Circle'], ['circle']),
    ('Ellipse()', ['UnitVector3d'], ['center']),
    ('Ellipse()', ['UnitVector3d', 'Angle'], ['center', 'angle']),
    ('Ellipse()', ['UnitVector3d', 'UnitVector3d', 'Angle'], ['focus1', 'focus2', 'alpha']),
    ('Ellipse()', ['UnitVector3d', 'Angle', 'Angle', 'Angle'], ['center', 'alpha', 'beta', 'orientation']),
    ('Ellipse()', ['Ellipse'], ['ellipse']),
    ('ConvexPolygon::convexHull', ['units'], ['points']),
    ('ConvexPolygon()', ['units'], ['points']),
    ('ConvexPolygon()', ['ConvexPolygon'], ['convexPolygon']),
    ('RangeSet()', ['u64'], ['integer']),
    ('RangeSet()', ['u64', 'u64'], ['first', 'last']),
    ('RangeSet()', ['RangeSet'], ['rangeSet']),
    ('RangeSet.insert', ['RangeSet', 'u64'], ['integer']),
    ('RangeSet.insert', ['RangeSet', 'u64', 'u64'], ['first', 'last']),
    ('RangeSet.erase', ['RangeSet', 'u64'], ['integer']),
    ('RangeSet.erase', ['RangeSet', 'u64', 'u64'], ['first', 'last']),
    ('RangeSet.intersection', ['RangeSet', 'RangeSet'], ['rangeSet']),
    ('RangeSet.union', ['RangeSet', 'RangeSet'], ['rangeSet']),
    ('RangeSet.difference', ['RangeSet', 'RangeSet'], ['rangeSet']),
    ('RangeSet.symmetricDifference', ['RangeSet', 'RangeSet'], ['rangeSet']),
    ('RangeSet.intersects', ['RangeSet', 'u64'], ['integer']),
    ('RangeSet.intersects', ['RangeSet', 'u64', 'u64'], ['first', 'last']),
    ('RangeSet.intersects', ['RangeSet', 'RangeSet'], ['rangeSet']),
    ('RangeSet.contains', ['RangeSet', 'u64'], ['integer']),
    ('RangeSet.contains', ['RangeSet', 'u64', 'u64'], ['first', 'last']),
    ('RangeSet.contains', ['RangeSet', 'RangeSet'], ['rangeSet']),
    ('RangeSet.isWithin', ['RangeSet', 'u64'], ['integer']),
    ('RangeSet.isWithin', ['RangeSet', 'u64', 'u64'], ['first', 'last']),
    ('RangeSet.isWithin', ['RangeSet', 'RangeSet'], ['rangeSet']),
    ('RangeSet.isDisjointFrom', ['RangeSet', 'u64'], ['integer']),
    ('RangeSet.isDisjointFrom', ['RangeSet', 'u64', 'u64'], ['first', 'last']),
    ('RangeSet.isDisjointFrom', ['RangeSet', 'RangeSet'], ['rangeSet']),
    ('RangeSet.simplify', ['RangeSet', 'u32'], ['n']),
    ('RangeSet.simplified', ['RangeSet', 'u32'], ['n']),
    ('RangeSet.scale', ['RangeSet', 'u64'], ['factor']),
    ('RangeSet.scaled', ['RangeSet', 'u64'], ['factor']),
    ('HtmPixelization()', ['int'], ['level']),
    ('HtmPixelization()', ['HtmPixelization'], ['htmPixelization']),
    ('Q3cPixelization()', ['int'], ['level']),
    ('Q3cPixelization()', ['Q3cPixelization'], ['q3cPixelization']),
    ('Mq3cPixelization()', ['int'], ['level']),
    ('Mq3cPixelization()', ['Mq3cPixelization'], ['mq3cPixelization']),
    ('HtmPixelization::level', ['u64'], ['i']),
    ('HtmPixelization::triangle', ['u64'], ['i']),
    ('HtmPixelization::asString', ['u64'], ['i']),
    ('Pixelization.pixel', ['Pixelization', 'u64'], ['i']),
    ('Pixelization.index', ['Pixelization', 'UnitVector3d'], ['i']),
    ('Pixelization.toString', ['Pixelization', 'u64'], ['i']),
    ('Pixelization.envelope', ['Pixelization', 'Region'], ['region']),
    ('Pixelization.interior', ['Pixelization', 'Region'], ['region']),
    ('Pixelization.envelope', ['Pixelization', 'Region', 'u32'], ['region', 'maxRanges']),
    ('Pixelization.interior', ['Pixelization', 'Region', 'u32'], ['region', 'maxRanges']),
    ('Chunker()', ['int', 'int'], ['numStripes', 'numSubStripesPerStripe']),
    ('Chunker.getChunksIntersecting', ['Chunker', 'Region'], ['region']),
    ('Chunker.getSubChunksIntersecting', ['Chunker', 'Region'], ['region']),
    ('Chunker.getAllSubChunks', ['Chunker', 'int'], ['chunkId']),
    ('Chunker.getChunkBoundingBox', ['Chunker', 'int', 'int'], ['stripe', 'chunk']),
    ('Chunker.getSubChunkBoundingBox', ['Chunker', 'int', 'int'], ['subStripe', 'subChunk']),
    ('Chunker.getStripe', ['Chunker', 'int'], ['chunkId']),
    ('Chunker.getChunk', ['Chunker', 'int', 'int'], ['chunkId', 'stripe']),
]
