"""Bounds and assumptions of every check (shown in the evidence)."""
B = {
"C01": ("cell alphabets of 9, 10 and 12 cut points incl. 0 and 2^64-1: every set, every operation, every argument, every pair; every allocation failing (7 points); all op sequences of length 5 over 4 values; lists up to 200 ranges",
        "additionally a 12 point alphabet, sequences of length 5, lists up to 200 ranges"),
"C02": ("all subsets of cut alphabets around block borders of every size 2^0..2^63; levels 0..6,31..33,62..65,127,128,2^32-1; factors small, powers of two, saturation thresholds +-1", "small sets over 20 cut points"),
"C03": ("all intervals over an end point alphabet with NaN, infinities, ulp neighbours; all ordered pairs; all offsets", "larger alphabet, longer histories"),
"C04": ("all intervals over a ring of end points; all ordered pairs; histories of 3; end points outside of [0, 2 pi)", "larger ring"),
"C05": ("products of the interval alphabets; all ordered pairs of a reduced product; all pairs of offsets", "larger product"),
"C06": ("all triples over component alphabets, exponent gaps -1074..1023, all 3^9 ulp neighbours of degenerate triples", "more components and more degenerate triples"),
"C07": ("all pairs over digit alphabets (up to 8 digits of 32 bits), shifts 0..130, all capacities, histories of depth 5 on two registers", "3 digits of 9 values"),
"C08": ("all vectors over component alphabets 5e-324..1.8e308 with NaN and inf; products of longitudes and latitudes; all pairs of a direction set with near (anti)parallels", "a denser exponent ladder"),
"C09": ("all indexes of small orders, digit windows at all positions for orders to 32, all 2^32 arguments of the 32-bit logarithm", "larger orders completely"),
"C10": ("zoo of regions, all nestings of depth 2 over 7 leaves, chains of 60, field value products, polygons to 60 vertices and 15 sizes up to 8192 alone and in compounds, balanced trees of depth 1..12", "chains of 200, polygons to 300 and of 65536 vertices, trees of depth 15"),
"C11": ("every truncation/extension/byte replacement/extreme field pair/inner length of all encodings; all strings of up to 2 bytes; 7 decoders", "all byte values everywhere"),
"C12": ("all ordered pairs of about 300 shapes and compounds x grid and boundary points; touching gaps 1e-13..1e-4; all ordered pairs of 3689 lattice regions; circles that touch edges within 12 steps of 2.5e-16 of the squared chord", "finer grids; all pairs of 11508"),
"C13": ("zoo and special shapes x boundary and inside points, without slack; circles within 1.2e-7 of the whole sphere", "finer boundary points"),
"C14": ("all lists of up to 5 points over 8 alphabets, all permutations of 7 points", "lists of up to 7, permutations of 9"),
"C15": ("all expressions with up to 3 leaves, partly 4; histories of depth 5; all unions and intersections of pairs of 353 lattice regions, each against each of the 353", "all with 4 leaves; histories of depth 6; of 3689, each against 38 of them"),
"C16": ("every level; all pixels to level 6, patterns of deep pixels, tied vectors", "all pixels to level 8"),
"C17": ("zoo x pixelizations x levels 0..4 x caps; small regions at deep levels; 11508 lattice regions x 3 pixelizations x levels 1-3; regions that reach pixel corners within 2e-16..5e-8", "levels 0..6; lattice at levels 1-4"),
"C18": ("all pixels to level 5, boundary patterns to the deepest level", "all pixels to level 7"),
"C19": ("all configurations up to 9 x 4 and large ones; queries for 6 configurations x zoo; invalid arguments; 11508 lattice regions per configuration", "all configurations up to 24 x 6; queries for 11"),
"C20": ("5 builds x all families of operations, bit for bit", "larger alphabets"),
"C21": ("all edit sequences of depth 3, near pairs, ellipses by foci and by axes", "the same"),
"C22": ("every exposed operation x argument alphabets, all indexes, wrong types at every position", "larger alphabets"),
"C23": ("all pixels of levels 0..3, special positions to level 17, about 600 regions x levels 0, 1, 3, small regions at deep levels", "all pixels of levels 0..5, regions x levels 0..5"),
"C24": ("all histories of 2 of 264 operations, and of 2 inputs of each of 13 operation families (29-49 neighbouring inputs each); two threads: all conflicting pairs, DPOR with at most 2 preemptions and 60 schedules per pair; all sequences of 3 value operations on 19 classes; Python: all sequences of 3 (pixelizations and chunkers: 2) of 8-26 read-only operations of 16 classes with results changed in between", "histories of 3, at most 8 preemptions, sequences of 4-5"),
"C25": ("all pairs of vectors over -4..4 and 8 scalars; all matrices over -2..2; all pairs of {0,1} matrices with and without distinct weights; all sequences of 6 of 22 operations on 2 vectors and 2 matrices", "vectors over -5..5, sequences of 7"),
"C26": ("products of a number alphabet (all spellings of double: denormals, extremes, 17 digit values, NaN, infinities) over every printable class x 6 stream states; all 4096 subsets of range set cells; every binary exponent; polygons to 60 vertices", "polygons to 200 vertices"),
"C28": ("all circles of 12 x 9 x 11 number spellings, all ranges of 12^2 x 10^2, all orderings of 3-4 of 8 vertices, all wrong argument counts; 26 hand-written YAML documents and all levels x all loaders", "14 x 11 x 11 circles, 10 vertices, all orderings"),
"C29": ("all triples of 158 directions (98 directions to lattice points with coordinates up to 2 and 60 others within 1e-2..1e-40 of them) as triangle and as point and segment (5 scales of the arguments); all splits of the triangles of 98 directions at 5 points; polygons of 3-64 vertices x 6 radii x 98 centers; all pairs of 628 latitudes", "lattice coordinates up to 3"),
"C27": ("all ordered pairs of values of 17 classes over alphabets with NaN, signed zeros, infinities, denormals and values that differ by one ulp in one parameter; all sequences of 3-4 of 5 vertices; all pairs of 256 range sets", "the same"),
}
A = {
"C06": ["boost cpp_int is correct"], "C07": ["boost cpp_int is correct"],
"C08": ["x87 long double arithmetic and libm's long double functions are accurate to a few ulps"],
"C12": ["signed distances in long double are accurate to 1e-17"],
"C22": ["pybind11, numpy and PyYAML of the sandbox"],
"C28": ["PyYAML of the sandbox"],
"C23": ["hpgeom of the sandbox is the one in use"],
"C24": ["sequential consistency plus happens-before race detection; read-write locks treated as exclusive"],
}
T = {
"C24": "controlled-scheduler exploration (DPOR, preemption bound) of the real code; exhaustive operation histories",
"C01": "explicit-state exploration of the real code in lock step with a bit-mask model",
"C07": "explicit-state exploration of the real code in lock step with an arbitrary-precision model",
"C25": "explicit-state exploration of the real code in lock step with an exact integer model",
}
