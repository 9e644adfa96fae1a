#!/usr/bin/env python3
"""Single source of properties.jsonl (and of the property list used by mkmanifest.py).
   python3 tools/props.py  -> rewrites /verif/properties.jsonl"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))
C="common/include/rofl/common/"; S="common/src/"; G="geometry/include/rofl/geometry/"; GS="geometry/src/"

prop("C01","MinMaxHeap is a double-ended priority queue",
 "After any sequence of push, popTop and popBottom, for any strict weak ordering and with any number of equal elements, a MinMaxHeap holds exactly the multiset of pushed and not yet popped elements (as seen by size, empty and iteration), top() is a least and bottom() a greatest of them. popTop removes one least and popBottom one greatest element; nextTop() and nextBottom() are the second least and second greatest elements of the multiset (the only element when there is just one).",
 ["inputs","histories"],"all operation histories, all element values incl. duplicates, any comparator",
 "test_min_max_heap prints one hand-written sequence of ten distinct integers and asserts nothing.",
 [C+"min_max_heap.h"],[("heapUp / heapDownMin / heapDownMax sift operations",C+"min_max_heap.h")],
 [("data_","implicit binary tree, even levels min, odd levels max",C+"min_max_heap.h")],["size, empty, top, bottom, nextTop, nextBottom, begin/end"])
prop("C02","IntervalIndices behaves as a product-set of integer intervals",
 "An IntervalIndices denotes the set of integer tuples min[d] <= i[d] < min[d]+dimensions[d], however it was initialised (bounds, min/max, centre and half-window, constructor, clone): inside() is membership in that set, size() its cardinality and empty() its emptiness, also when one or more dimensions are zero or negative, and min/max/first/last report its bounds. intersect() denotes the set intersection, translate() the translated set, and stacked(d,k) the block of thickness |k| adjacent to the interval beyond its upper face along d when k>=0 and beyond its lower face when k<0.",
 ["inputs","configurations"],"all dimensions, bounds (also negative and degenerate) and pairs of intervals",
 "test_interval_indices prints a few fixed 2D/3D intervals.",
 [C+"interval_indices.h"],[("interval algebra",C+"interval_indices.h")],(),["min,max,first,last,dimensions,size,empty,inside,intersect,stacked,translate"])
prop("C03","Raster and boustrophedon iteration visit every cell exactly once",
 "Iterating a non-empty interval from begin to end visits every index tuple of the interval exactly once and nothing else, and an empty interval is not iterated at all; raster order has dimension 0 varying fastest and increasing. In boustrophedon order, starting at the minimum corner, each step changes exactly one index by exactly one; operator-- undoes operator++ in both orders, and the pre and post forms agree.",
 ["inputs","configurations"],"all numbers of dimensions and all side lengths, even and odd",
 "the test only prints the traversal of a fixed small interval; 3D and more with odd sides is not looked at.",
 [C+"interval_indices.h"],[("RasterIndexer, BoustrophedonIndexer, IntervalIterator",C+"interval_indices.h")],(),["beginRaster/endRaster, beginBoustrophedon/endBoustrophedon"])
prop("C04","Grid cells are independent and addressed bijectively",
 "On a Grid over any index domain, getPos is a bijection from the domain onto 0..size-1 with getIndices its inverse, and all access forms (index array, raw index pointer, linear position) address the same cell. Reading a cell returns the last value written to it, a write changes no other cell, fill sets all cells, inside() is membership in the domain, size() is the number of cells, and cells never written hold the default value after the domain is first set.",
 ["inputs","histories","configurations"],"all domains (any minimum corner and sides) and write/fill histories",
 "no test of Grid exists.",
 [C+"grid.h",C+"interval_indices.h"],[("StaticRasterIndexer / RasterIndexer index arithmetic",C+"interval_indices.h")],(),["value (4 forms), getPos, getIndices, size, fill, inside"])
prop("C05","PeakFinderD reports exactly the strict window maxima",
 "detect() reports exactly the cells of the domain whose value strictly precedes (in the comparator order) the value of every other domain cell within the peak window centred on it and, when the minimum filter is enabled, also strictly precedes the threshold. Each such cell is reported once, in non-decreasing comparator order (best first), and no other cell is reported.",
 ["inputs","configurations"],"all value maps, domains (incl. corners and one-cell sides), windows and comparators",
 "test_peak_finder_d prints the result on one random map.",
 [C+"peak_finder_d.h",C+"min_max_heap.h",C+"interval_indices.h"],[("sliding window in boustrophedon order with a min-max heap of window cells",C+"peak_finder_d.h")],(),["detect output sequence"])
prop("C06","DisjointSet maintains the partition generated by the joins",
 "After any sequence of initSets, makeSet, find and join, two nodes have the same find() result exactly when they are connected by the joins done, find() returns a member of the node's own set, setNum() is the number of sets, size(n) the number of nodes of n's set, nodeNum() the number of nodes, and parents() lists exactly one representative per set, the one find returns. join returns the representative of the merged set, or the number of nodes if both were already in the same set; an out-of-range identifier changes nothing: find and join then return the number of nodes and size 0.",
 ["inputs","histories"],"all operation histories incl. invalid identifiers",
 "no test of DisjointSet exists.",
 [S+"disjoint_set.cpp",C+"disjoint_set.h"],[("union by rank with path compression",S+"disjoint_set.cpp")],(),["find, join, size, setNum, nodeNum, parents, makeSet"])
prop("C07","LabelSet implements set algebra",
 "A LabelSet is a finite set of integers: insert (returning whether the label was already present), remove, clear, inside, size, empty and ascending iteration without repetition agree with the set obtained by the operation history. unionSet, intersectionSet and differenceSet (with a label or another set) return the corresponding sets and leave their operands unchanged; == holds exactly for equal sets and != for different ones, also when one is a prefix or subset of the other or empty.",
 ["inputs","histories"],"all sets and histories, all pairs of sets",
 "test_label_set prints unions and intersections of two fixed sets.",
 [S+"label_set.cpp",C+"label_set.h"],[("std::set algorithms",S+"label_set.cpp")],(),["all const accessors, operators and returned sets"])
prop("C08","ParamMap is a last-writer-wins table with typed access",
 "A ParamMap maps names to the last value given by any source: each stream or file line whose first word is not a comment and that has at least two words sets first word to second word, whatever the line length, and all other lines are ignored; on a command line each option (a '-' followed by a letter) directly followed by a non-option sets the option name, without the '-', to it, and everything else is ignored. getParam of a present name returns true and stores the value cast to the requested type (leaving the destination untouched if the text is not of that type); of an absent name it returns false, stores the default and records it in the table; clear empties the table.",
 ["inputs","histories"],"all input texts, argument vectors and interleavings of sources",
 "no test of ParamMap semantics (apps only use one fixed set of options).",
 [S+"param_map.cpp",C+"param_map.h"],[("line/argv parsing, getParam",S+"param_map.cpp")],(),["getParam<int,double,bool,string>, write"])
prop("C09","ParamMap files round-trip and list the table in order",
 "write() emits one line 'name value' per entry of the table in lexicographic order of names, each preceded by the given prefix if any. For every table whose names and values are single non-empty words with names not starting with the comment mark, reading what was written (through a stream or a file) into an empty ParamMap reproduces exactly the same table; reading or writing a file that cannot be opened returns false and changes nothing.",
 ["inputs","histories"],"all tables, long values included",
 "not tested.",
 [S+"param_map.cpp"],[("write / read pair",S+"param_map.cpp")],(),["write(stream), write(prefix), write(file), read(file)"])
prop("C10","ParamMap container parameters and tilde expansion",
 "getParamContainer splits the stored text (or, if the name is absent, the default text, which is then recorded) at the delimiter characters dropping empty pieces and stores the converted pieces in order from the beginning of the range until the range is full or a piece does not convert; every other position of the range gets the default value and nothing outside the range is written; it returns whether the name was present. getParamContainerInserter inserts the converted pieces of a present name in the same order and returns true; for an absent name it inserts nothing, records the empty text and returns false. adaptTildeInPaths rewrites exactly the values that are '~' or start with '~/' (the leading '~' or '~/' becomes $HOME/, what follows is kept) and leaves every other name and value of the table unchanged.",
 ["inputs","histories"],"all texts, delimiters, range lengths, tables (values starting with '~' followed by something else than '/' are left open)",
 "not tested.",
 [C+"param_map.h",S+"param_map.cpp"],[("fillWithTokens, adaptTildeInPaths",C+"param_map.h")],(),["filled ranges, table after the call"])
prop("C11","Bit utilities compute exact logarithms and powers of two",
 "For all eight integer types (and the nlz8..64, flp2u8..64, clp2u8..64 functions on unsigned words) nlz returns the exact number of leading zero bits of the word, 0 included; log2Mod of a non-zero value is the l with 2^l <= |value| < 2^(l+1); floorPow2 and ceilPow2 map zero to zero, a positive value to the greatest power of two not above it and the least power of two not below it whenever that is representable in the type, and a negative value to the opposite of ceilPow2 and floorPow2 of its absolute value (floorPow2(-5) = -8, ceilPow2(-5) = -4). The most negative value of a signed type is exempt from the last three.",
 ["inputs"],"all values of int8..int64 and uint8..uint64",
 "test_numeric_traits prints a few values; 64-bit words cannot be enumerated by tests.",
 [S+"bit_manip.cpp",C+"bit_manip.h",C+"numeric_traits.h"],[("nlz*, log2Mod, floorPow2, ceilPow2",S+"bit_manip.cpp")],(),["return values"])
prop("C12","Float decomposition is exact and invertible",
 "For every float and double word, decompose yields exactly the stored mantissa, the unbiased exponent and the sign, so that a normal value equals (-1)^s (1 + m 2^-lm) 2^e and compose of the three rebuilds the identical value (a NaN for a NaN); the published constants (mantissa and exponent bits, bias, minimum and maximum exponent, implicit bit, mantissa, exponent and sign masks) are those of the IEEE 754 format, the minimum exponent marking zeros and subnormals and the maximum one infinities and NaN; toInt returns the word.",
 ["inputs"],"all float/double words of both signs and all exponents",
 "test prints a handful of values.",
 [C+"numeric_traits.h",S+"bit_manip.cpp"],[("decompose / compose bit fields",C+"numeric_traits.h")],(),["decompose, compose, constants"])
prop("C13","Integer Morton order is the bit-interleaving order",
 "For integer coordinate vectors of any of the eight integer types and any dimension, the Morton comparator orders points exactly as the integers obtained by interleaving the bits of the coordinates from the most significant level down (dimension 0 first inside a level), signed coordinates being offset so that negative ones precede non-negative ones; it is thus a strict total order in which only equal vectors are equivalent and every point of a box lies between its lower and upper corners. The Morton distance is the number of levels from the highest differing bit of any coordinate down (0 for equal vectors), and msb(i,j) on unsigned values tells whether floor(log2 i) < floor(log2 j).",
 ["inputs"],"all pairs of vectors of every integer type, incl. extreme and negative values",
 "test_morton_order sorts one random cloud and prints it.",
 [C+"morton_sort.h",C+"numeric_traits.h",C+"bit_manip.h"],[("msb of xor comparison",C+"morton_sort.h")],(),["comparator result, distance, msb"])
prop("C14","Floating-point Morton order is the order of the binary expansions",
 "On float and double vectors whose coordinates are zero or normal numbers (no negative zero, magnitudes of at least 2^-100 for float and 2^-960 for double), the Morton comparator orders points exactly as the interleaving of the two's complement binary expansions of the coordinates from the most significant level down (dimension 0 first inside a level), negative values before non-negative ones; it is thus a strict total order in which only equal vectors are equivalent, which agrees with the integer order on integer-valued points and is invariant under scaling by powers of two. The Morton distance is the exponent of the highest differing bit of any coordinate (the maximum exponent constant if some coordinates have different signs, the minimum exponent constant for equal vectors).",
 ["inputs"],"all pairs of such vectors, of all exponents and signs",
 "one random float cloud is printed by the test.",
 [C+"morton_sort.h",C+"numeric_traits.h"],[("exponent/mantissa xor level",C+"morton_sort.h")],(),["comparator result, distance"])
prop("C15","Morton cell splitting brackets and separates the points",
 "The power-of-two interval of two integers is the smallest aligned block of 2^level consecutive integers containing both, returned as its first, middle (low + 2^(level-1); low if the two are equal) and last element, the whole range split at its middle if the highest bits differ; of two floating-point numbers of equal sign it is the smallest block of magnitudes [k 2^level, (k+1) 2^level) containing both, ending at the greatest number of the block with the precision of the larger magnitude (mirrored for negative numbers, all three values equal to the number if the two are equal), and of numbers of different signs the whole range split at zero. Splitting the cell of two vectors returns these blocks in every dimension, with the middle in the first dimension of highest level and the lower end in the others, so that distinct points are always separated by the middle along that dimension.",
 ["inputs"],"all pairs of vectors of every integer and floating-point type",
 "test_morton_functions prints a few cases.",
 [C+"morton_sort.h",C+"numeric_traits.h"],[("intervalPow2, mortonSplit",C+"morton_sort.h")],(),["return values"])
prop("C16","MortonTree keeps all items, in Morton order, with their identifiers",
 "A MortonTree contains exactly the inserted items, each with its coordinates and with the identifier it was inserted with or, if identifiers are reset (the default), the number of items inserted before it, whatever the insert variant and the interleaving of insertions, sorting, lookups and copies; after sort() or any lookup the items are in Morton order; findItem returns the first item that does not precede the query in Morton order (the end if there is none); computeLevel of a non-empty range is the Morton distance of its first and last items.",
 ["inputs","histories"],"all insert/sort/lookup histories",
 "test_morton_tree prints one random tree.",
 [C+"morton_tree.h",S+"morton_tree.cpp"],[("sorted vector of items",C+"morton_tree.h")],(),["iteration, getItems, findItem, computeLevel, size"])
prop("C17","MortonTree box search is exact",
 "searchInBox appends to the result exactly the items whose coordinates all lie within the closed box, each once and in Morton order, whatever the number of items, their distribution, the interleaving of insertions and searches and the box corners (nothing for an inverted box); with a center and a range the box is center - range .. center + range in every dimension.",
 ["inputs","histories"],"all point sets and boxes",
 "the test prints one search result.",
 [C+"morton_tree.h"],[("Morton range search",C+"morton_tree.h")],(),["returned item list"])
prop("C18","Hough plane votes are counted exactly once per direction",
 "For every history of HoughPlaneDetector init, insert(points), insert(begin, end, converter) and setZero calls, the Hough transform value of a cell [itheta, iphi, irho] is the number of inserted points whose projection rho on the cell's normal satisfies rhoMin + irho*rhoRes <= rho < rhoMin + (irho+1)*rhoRes: one vote per point and direction when the projection is in the configured range, none otherwise. insert(points) accumulates on the previous votes, the iterator version starts from zero, init and setZero clear. The Hough spectrum after an insertion is the sum over irho of the squared transform values, and getNormal is the unit vector of the cell's latitude theta and longitude phi; both overloads of each accessor agree. (A projection within rounding error of a bin boundary may vote in either adjacent bin.)",
 ["inputs","configurations","histories"],"all point sets and discretisations",
 "test_hough_plane_detector prints planes of one synthetic cloud.",
 [GS+"hough_plane_detector.cpp",G+"hough_plane_detector.h"],[("voting loop",GS+"hough_plane_detector.cpp")],(),["Hough transform and spectrum accessors"])
prop("C19","Hough plane extraction reports the voted planes",
 "Given the votes, findSpectrumMax returns exactly the cells whose Hough spectrum is strictly greater than that of every other cell in the half-window set by setPeakWindow (scalar half-windows are rounded up to whole cells), and findNormalMax their normals; findParallelPlanes returns exactly the strict window maxima of the transform along rho for the given direction; findPlanes returns exactly the cells that are such rho maxima of a direction returned by findSpectrumMax, ordered by non-increasing votes. Each result is listed once, best first, and the plane parameters (also those of both getPlaneParam overloads) are the cell's normal and -(rhoMin + rhoRes*irho). findNormalMax, findParallelPlanes and findPlanes with plane parameters replace the previous content of the output.",
 ["inputs","configurations"],"all vote tables",
 "one synthetic cloud is printed.",
 [GS+"hough_plane_detector.cpp",G+"hough_plane_detector.h"],[("findPlanes / getPlaneParam",GS+"hough_plane_detector.cpp")],(),["findPlanes, getPlaneParam"])
prop("C20","Hough line votes and lines",
 "For every history of calls on a HoughLineDetector, the transform counts for each angle one vote per inserted point in the range bin [rhoMin + irho*rhoRes, rhoMin + (irho+1)*rhoRes) containing its projection, none when out of range; insert(points) accumulates, the iterator version starts from zero, and the spectrum is the sum of squared votes per angle. The spectrum maxima (as indices, angles and normals) are exactly the strict window maxima, best first; findLines returns exactly the strict window maxima along rho of those angles, grouped by angle best first, each with the normal of its angle and -(rhoMin + rhoRes*irho) (these parameters replace the previous content of the output).",
 ["inputs","configurations","histories"],"all 2D point sets and discretisations",
 "no test.",
 [GS+"hough_line_detector.cpp",G+"hough_line_detector.h"],[("voting loop",GS+"hough_line_detector.cpp")],(),["lines returned"])
prop("C21","Correspondence graph returns all maximum consistent associations",
 "Two source-destination pairs with different sources and different destinations are consistent when their source distance exceeds distanceMin and differs from their destination distance by less than the tolerance (both strictly; a new object has tolerance 0.1 and distanceMin 0). associate() returns exactly the largest sets of mutually consistent pairs: every set of maximum size is returned, each once, each a set of valid index pairs, and none when there is no item. The result of a call depends only on its arguments and the parameters, not on earlier calls on the same object, and the overloads agree.",
 ["inputs","histories"],"all point sets, distances, tolerances and call histories",
 "the only test prints one instance.",
 [GS+"correspondence_graph_association.cpp",G+"correspondence_graph_association.h"],[("Bron-Kerbosch clique search",GS+"correspondence_graph_association.cpp")],(),["associate result"])
prop("C22","TLS scalar consensus minimises the truncated cost",
 "For any values with positive ranges, estimateTranslationTls returns the mean, weighted by 1/range^2 (ranges below 1e-6 count as 1e-6), of a set of values whose intervals [value-range, value+range] share a point, and that set minimises the sum of the squared distances of its values from the mean plus the ranges of the excluded values, among all sets met when sweeping the interval end points in order. The inlier flags, one per value, mark exactly the values strictly closer to the returned estimate than their range. Results of earlier calls left in the output arguments have no effect.",
 ["inputs"],"all value and range vectors, ties and coincident end points included",
 "test prints one random instance.",
 [C+"tls_scalar_consensus.h"],[("endpoint sweep",C+"tls_scalar_consensus.h")],(),["estimate, inliers"])
prop("C23","Profiler statistics equal those of the recorded samples",
 "For every label, and whatever the interleaving of labels and printouts, the Profiler reports exactly one row per recorded label with the mean, the sample variance (sum of squared deviations over count - 1, zero for one sample), the minimum, the maximum and the count of exactly the times recorded under that label. A ScopedTimer adds one sample, the non-negative time spent in its scope in milliseconds, to its label when the scope ends, and its elapsed time never decreases.",
 ["histories"],"all sequences of labelled samples and printouts",
 "no test.",
 [S+"profiler.cpp",C+"profiler.h"],[("online Welford update",S+"profiler.cpp")],(),["printStats"])
prop("C24","Planar angles, arcs, orientation and poses",
 "For every angle normalizeAngle2Pi and normalize360 return the congruent angle in [0, 2*pi[ and normalize180 the one congruent modulo pi in [0, pi[, also for angles that are a rounding error away from a multiple of the period. insideAngleInterval holds exactly for the angles on the arc that goes counter-clockwise from the begin (included) to the end (excluded), insideAngleIntervalEq with the end included, for all end points and any number of turns. ccw returns twice the signed area of the triangle (positive when counter-clockwise), and poseToIsometry2 the isometry that rotates by theta counter-clockwise and then translates by (x, y).",
 ["inputs"],"all angles, arcs, triples of points and poses",
 "no test.",
 [GS+"base_geometry2.cpp",G+"base_geometry2.h",S+"functions.cpp"],[("normalisation, interval tests, cross product",GS+"base_geometry2.cpp")],(),["return values"])
prop("C25","Interval bounds of cosine and Fourier series enclose the values",
 "findLUCos returns the exact minimum and maximum of the cosine over the interval between its arguments, in either order and over any number of turns. findLUFourier returns bounds that enclose every value on the interval of the series with terms a_k cos(2 k x) + b_k sin(2 k x), no wider than the sum of the exact bounds of its terms. evaluateFourier returns the sum of coeffs[2k] cos(k x) + coeffs[2k+1] sin(k x) over all its coefficients.",
 ["inputs"],"all intervals and coefficients",
 "no test.",
 [S+"functions.cpp",C+"functions.h"],[("findLUCos, findLUFourier",S+"functions.cpp")],(),["returned bounds"])
prop("C26","Directory listing returns exactly the regular files, sorted",
 "getDirectoryFiles appends to the list one path (the directory path, a separator and the name) for exactly the regular files directly inside the directory, hidden ones and symbolic links to regular files included, and for nothing else (no directories, contents of subdirectories, dangling links or special files). Entries already in the list are kept, and the whole list is left in lexicographic order.",
 ["configurations","histories"],"all directory contents and previous list contents",
 "test_io prints a listing.",
 [S+"io.cpp"],[("directory_iterator",S+"io.cpp")],(),["returned vector"])
prop("C27","Box registration associates points to nearest surface points",
 "For every box (also with zero sides) and every query point, BoxRegistration::associate returns a point that lies on the surface of the box (not merely inside it) and is at minimum distance from the query among all points of the surface, in 2 and 3 dimensions.",
 ["inputs"],"all boxes and query points inside, outside and on the surface",
 "no test.",
 [G+"box_registration.h"],[("associate",G+"box_registration.h")],(),["association result"])
prop("C28","Numeric approximations stay within their accuracy",
 "For every argument fastCosSin and fastCosSinf are within 0.0015 of cosine and sine, fastAtan and fastAtanf within 2e-5 of the arc tangent on [-1,1], and fastAtan2(x,y) and fastAtan2f within 2e-5 rad of the angle of the point (x,y) in [-pi,pi], and 0 in the origin. evaluatePnebiVector(n,x) gives 2 exp(-|x|) I_k(|x|) for k=0..n within 2e-5, whatever n, the sign of x and the previous content of the vector; PnebiLUT gives the same values within its tolerance for all orders up to its maximum, in both forms, and an empty LUT gives 0.",
 ["inputs"],"all real arguments, orders and tolerances",
 "tests sample a few arguments and assert nothing.",
 [S+"functions.cpp",C+"functions.h"],[("polynomial approximations, backward recurrence, adaptive LUT",S+"functions.cpp")],(),["returned values"])
prop("C29","Box registration computes the optimal rigid motion",
 "BoxRegistration::computeTransform replaces the given pose by the proper rotation (no reflection) and translation that minimise the sum of squared distances between the moved nearest surface points, associated under the given pose, and the points of the cloud, for every non-empty cloud, also planar, collinear or single-point ones. estimateInitTranform sets the translation to the centroid and the rotation to the principal axes of the cloud so that box axes with a smaller side are mapped to axes with a smaller spread; with fewer than two points it gives the identity.",
 ["inputs"],"all boxes, poses and clouds",
 "no test.",
 [G+"box_registration.h"],[("SVD solution of the Procrustes problem, eigenvectors of the covariance",G+"box_registration.h")],(),["returned transformation"])
prop("C30","Geodetic conversions agree with the WGS84 ellipsoid",
 "meterPerDegLat and meterPerDegLon give the lengths of a degree of latitude and of longitude at the given latitude. convertLatLonToLocalXY maps the origin to (0,0), y to the latitude difference and x to the longitude difference times those lengths at the origin's latitude, independently of the origin's longitude, and convertLocalXYToLatLon is its inverse. convertLatLonAltToECEF gives the WGS84 earth-centred coordinates of the point at the given altitude above the ellipsoid, up to single precision.",
 ["inputs"],"all origins, offsets, latitudes, longitudes and altitudes",
 "no test.",
 [GS+"gis.cpp",G+"gis.h"],[("series of the meridian and parallel arcs, prime vertical radius",GS+"gis.cpp")],(),["returned values"])
prop("C31","VectorArray operations are element-wise",
 "In every history of operations on VectorArray objects of any scalar type and size, +, - , * and / of two vectors and * with a scalar return the element-wise results without changing their operands; += and *= (vector or scalar, also when the argument is the vector itself or one of its items) store the element-wise result in the left operand and return it. A default-constructed vector is zero, copies are independent, and () and [] access the same items.",
 ["inputs","histories"],"all sizes, values and operation histories with aliasing",
 "no test.",
 [C+"vector_array.h"],[("operators",C+"vector_array.h")],(),["items after each operation, returned values"])
prop("C32","Stamped names carry the local date and time",
 "generateStampedString returns the prefix, then the current local date and time as YYYYMMDD_hhmm_ss (zero-padded, 24 hours, months and days from 01), then the postfix, both copied verbatim whatever characters they contain, at every instant and in every time zone, with or without summer time; hence with the same prefix later names sort after earlier ones as long as the clocks are not set back.",
 ["inputs","configurations"],"all instants, time zones, prefixes and postfixes",
 "test_io prints one name.",
 [S+"io.cpp"],[("put_time formatting",S+"io.cpp")],(),["returned string"])

prop("C33","Plane-aligned frames of point clouds",
 "For every plane with non-zero normal, whatever the scale and sign of its coefficients, and every cloud, PointCloudPlaneAligner::compute sets the transform to a proper rigid motion (no reflection, no scaling) that maps the normal, oriented so that the constant coefficient is not negative (getPlaneCoeffs returns the coefficients so oriented), to the positive axis Z, with axis X along the projection onto the plane of the original axis Z (of the original axis X if z is the largest component of the normal), keeps the heights along the normal, and brings the centroid of the points strictly closer to the plane than the tolerance onto the axis Z (no translation if there is none). transform() outputs every point of the cloud moved by the last computed transform, in order and with its other fields unchanged. Only the last cloud, plane and tolerance set matter (initially the plane z = 0 and 0.02).",
 ["inputs","histories"],"all planes, tolerances, clouds and call histories",
 "no test.",
 ["pcl/include/rofl/pcl/point_cloud_plane_aligner.h"],[("Gram-Schmidt frame and inlier centroid","pcl/include/rofl/pcl/point_cloud_plane_aligner.h")],(),["getPlaneCoeffs, getTransform, transform"])

prop("C34","Requests outside their domain are refused, those inside are answered",
 "In every history of calls, a request outside its domain makes the program exit with a failure status and a message on the standard error, without touching memory outside of the object, and a request inside its domain is always answered: top, bottom, nextTop, nextBottom, popTop and popBottom of a MinMaxHeap (refused exactly when it is empty), stacked(d,k) and translate(d,k) of an IntervalIndices and its iterators (dimension index not below the number of dimensions, null interval), PeakFinderD::detect (empty domain), PnebiLUT::eval(k,x) of an initialised table (order negative or above the maximum), estimateTranslationTls (different numbers of values and ranges), and all indexed accessors of HoughPlaneDetector and HoughLineDetector in both forms (an index negative or not below the size of its dimension; every index before the first init). The ROFL_ASSERT macros themselves end the program exactly when their condition is false.",
 ["inputs","histories"],"all call histories and all index values, extreme ones included",
 "no test makes a request outside its domain.",
 [C+"macros.h",C+"min_max_heap.h",C+"interval_indices.h",C+"peak_finder_d.h",C+"tls_scalar_consensus.h",S+"functions.cpp",GS+"hough_plane_detector.cpp",GS+"hough_line_detector.cpp"],
 [("ROFL_ASSERT macros",C+"macros.h")],(),["termination status and standard error of the calling process"])

prop("C35","Printed forms show the content",
 "At every point of every history of changes, print and operator<< of a LabelSet write its labels in increasing order as {a, b, ...}; print and operator<< of an IntervalIndices write [min:max,...] with the inclusive bounds of each dimension; outIdx gives [i,j,...]; print and toString of a MortonTree item give [v,...](id n); print of a MinMaxHeap lists every item once with its position, the positions in order from 0 under the level of the tree they belong to, the top first. Printing changes nothing. ROFL_VAR1..ROFL_VAR7 write on the standard output one line with the file name, the line number and each expression with its own value, ROFL_MSG and ROFL_ERR the message (on standard output and error).",
 ["inputs","histories"],"all contents and histories, negative and extreme numbers, empty objects",
 "tests print texts for a person to look at; nothing compares them.",
 [S+"label_set.cpp",C+"interval_indices.h",C+"morton_tree.h",C+"min_max_heap.h",C+"macros.h"],
 [("LabelSet::print",S+"label_set.cpp"),("ROFL_VAR macros",C+"macros.h")],(),["text read by persons and scripts"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
