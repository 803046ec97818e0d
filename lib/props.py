"""The properties, and how each is decided. gen.py writes properties.jsonl and MANIFEST.json from this table.

parts: (harness, variant, cases in the quick tier, cases in the thorough tier); module: a module of checks/ with run(ctx)."""
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note, parts=(), module=None, rule="", assumptions=(), technique=None, state=(), observe=()):
    PROPS.append(
        dict(
            id=id, title=title, statement=" ".join(statement.split()), over=over.split(), text=" ".join(text.split()), why=" ".join(why.split()), files=files.split(), mech=mech,
            note=" ".join(note.split()), parts=list(parts), module=module, rule=" ".join(rule.split()), assumptions=list(assumptions),
            technique=technique or "runtime monitoring of generated workloads under ASan/UBSan, judged by independent oracles", state=list(state), observe=list(observe),
        )
    )


SEEDED = "inputs are drawn from a generator seeded with VERIF_SEED; nothing is claimed about inputs it does not draw"
EXACT = "the oracles use 128-bit integer or long double arithmetic of their own and share no code with the engine"

prop(
    "G01", "Boolean and offset operations on areas agree with point membership",
    """For every set of polygons, union, difference, intersection, xor, offsetting, splitting into parts and the other area operations give an area
    whose membership at any point farther than the rounding distance from a contour is the one the operation's definition gives, whose parts partition it, and whose area is
    consistent with it.""",
    "inputs", "all sets of polygons (any nesting, orientation, degeneracy) with coordinates in the printable range, all offset distances, join types and points",
    "The unit tests compare a handful of squares; the guarantee is about every polygon set that slicing produces.",
    "include/geometry/Shape.h src/geometry/Shape.cpp src/geometry/Polygon.cpp src/geometry/LinesSet.cpp src/geometry/SingleShape.cpp src/geometry/PartsView.cpp",
    [("Clipper-backed operations", "src/geometry/Shape.cpp"), ("splitIntoParts", "src/geometry/Shape.cpp")],
    "membership judged at sampled points by exact winding numbers; artefacts of the Clipper library itself are excused only where raw Clipper shows them too",
    parts=[("g01_shapes", "asan", 2600, 60000)],
    rule="one evaluation is one randomly built pair of polygon sets put through all operations; non-trivial when the sets have area; distinct by the vertices",
    assumptions=[SEEDED, EXACT, "contours nearer than 3 um to a sampled point are not judged there"],
)
prop(
    "G02", "Simplifying a path stays within its configured deviation",
    """Simplifying any polygon or polyline keeps it within the configured maximum deviation (times a small constant) of the original unless the original folds back on itself, keeps
    the end points of open lines, only uses existing vertices or intersections near them, never adds vertices, and does not remove paths larger than the deviation.""",
    "inputs configurations", "all polygons, open and closed lines and variable-width lines; all resolution, deviation and area-deviation settings",
    "Tests try a circle and a few zigzags; the deviation bound is a statement about every vertex sequence and setting.",
    "src/utils/Simplify.cpp include/utils/Simplify.h",
    [("priority queue of vertex importance", "src/utils/Simplify.cpp")],
    "both directed Hausdorff distances are measured by an independent oracle on generated paths",
    parts=[("g02_simplify", "asan", 16000, 400000)],
    rule="one evaluation is one path simplified; non-trivial when it has more than two vertices; distinct by vertices and settings",
    assumptions=[SEEDED, EXACT, "paths that fold back sharply are exempt from the deviation bound"],
)
prop(
    "G03", "Stitching line pieces loses, doubles and reorders nothing",
    """Joining loose line pieces into chains and loops uses every piece exactly once, in its own order and (for contours) direction, joins only ends that lie within the stitching
    distance, keeps gap-filling lines apart from contours, and leaves no two ends unjoined that fit.""",
    "inputs", "all sets of open pieces (polylines and variable-width lines), all stitching and snapping distances",
    "Tests join two or three pieces; which piece wins depends on the whole arrangement of ends.",
    "include/utils/PolylineStitcher.h src/utils/PolylineStitcher.cpp include/utils/MixedPolylineStitcher.h src/utils/MixedPolylineStitcher.cpp",
    [("nearest end search over a grid of ends", "src/utils/PolylineStitcher.cpp")],
    "every input vertex is unique, so the monitor traces each one through the output",
    parts=[("g03_stitch", "asan", 1000, 30000)],
    rule="one evaluation is one set of pieces stitched as lines, as mixed lines and as variable-width lines; non-trivial with at least two pieces; distinct by vertices",
    assumptions=[SEEDED, EXACT],
)
prop(
    "G04", "Geometric queries on areas return the true nearest point, side or crossing",
    """For every set of polygons and every point or segment, the closest point, the point moved to the inside or outside by a distance, the crossings of a segment with the
    contours and the walk along a contour that the query functions report are the ones an exhaustive search over the contours gives, within rounding.""",
    "inputs", "all sets of polygons, all query points, segments and distances in the printable range",
    "Unit tests query a square and a few hand-made shapes; travel planning asks these questions of every outline of every layer.",
    "src/utils/polygonUtils.cpp include/utils/polygonUtils.h include/utils/linearAlg2D.h",
    [("closest point, moveInside, ensureInsideOrOutside, intersections", "src/utils/polygonUtils.cpp")],
    "every answer is compared with a brute-force search in long double; distances moved are limited to 40 mm because moveInside squares them in 32 bits",
    parts=[("g04_queries", "asan", 1500, 40000)],
    rule="one evaluation is one set of polygons with a batch of queries; non-trivial when the polygons have area; distinct by vertices",
    assumptions=[SEEDED, EXACT],
)
prop(
    "G05", "Spatial grids return everything within the asked radius exactly once",
    """A lookup in a spatial grid over points or lines returns every stored element within the query radius, none farther away than the cell size allows, and visits each cell that a line or a
    disk touches exactly once, wherever the coordinates lie relative to the origin and the cell borders.""",
    "inputs histories", "all insertion sequences, cell sizes, query positions and radii, positive and negative coordinates",
    "Tests insert a few points; a missed cell only shows for particular positions relative to cell borders and signs.",
    "include/utils/SquareGrid.h src/utils/SquareGrid.cpp include/utils/SparseGrid.h include/utils/SparseLineGrid.h include/utils/SparsePointGrid.h include/utils/SparsePointGridInclusive.h",
    [("cell enumeration", "src/utils/SquareGrid.cpp"), ("nearby lookups", "include/utils/SparseGrid.h")],
    "shadow containers with brute force lookups watch every query",
    parts=[("g05_grids", "asan", 8000, 300000)],
    rule="one evaluation is one grid filled with elements and a batch of queries; distinct by contents",
    assumptions=[SEEDED],
)
prop(
    "G06", "Vector, segment, angle and matrix primitives agree with exact arithmetic",
    """The linear algebra primitives (distances and nearest points of segments, sides, angles, corner points, rotations, affine matrices, rounding helpers) return for every input in the
    printable range the value that exact arithmetic gives, within the documented rounding.""",
    "inputs", "all points, segments, angles and matrices in the printable range",
    "Tests tabulate a few cases; wrong signs and truncations appear only for particular quadrants, degenerate segments and magnitudes.",
    "include/utils/linearAlg2D.h src/utils/linearAlg2D.cpp include/geometry/Point2LL.h include/geometry/Point3LL.h include/geometry/PointMatrix.h include/geometry/Point3Matrix.h include/utils/Matrix4x3D.h src/utils/Matrix4x3D.cpp include/settings/types/Angle.h include/utils/math.h include/utils/Coord_t.h",
    [("linearAlg2D", "src/utils/linearAlg2D.cpp")],
    "each primitive is recomputed in long double by an oracle written from its documentation",
    parts=[("g06_primitives", "asan", 40000, 1000000)],
    rule="one evaluation is one batch of random operands put through all primitives; distinct by operands",
    assumptions=[SEEDED, EXACT],
)
prop(
    "G07", "Bounding boxes contain exactly what they were built from",
    """A two- or three-dimensional bounding box built from points, polygons or other boxes is the tightest box around them, and its containment, overlap, distance, expansion and
    intersection queries agree with the box it stands for, including for empty boxes.""",
    "inputs histories", "all sequences of include, expand, exclude and flip operations and all queries",
    "Tests try fixed boxes; placement and combing decisions rely on boxes for arbitrary geometry.",
    "include/utils/AABB.h src/utils/AABB.cpp include/utils/AABB3D.h src/utils/AABB3D.cpp",
    [("AABB", "src/utils/AABB.cpp"), ("AABB3D", "src/utils/AABB3D.cpp")],
    "a shadow list of points is the oracle",
    parts=[("g07_boxes", "asan", 40000, 1000000)],
    rule="one evaluation is one sequence of box operations with queries; distinct by operands",
    assumptions=[SEEDED, EXACT],
)
prop(
    "G08", "Set, spanning-tree and vertex-index structures behave as their definition",
    """The union-find structure reports exactly the partition that the unions made, the minimum spanning tree spans all vertices with minimum total length, and the vertex and segment indices
    walk every contour cyclically and in order.""",
    "inputs histories", "all operation sequences on union-find, all point sets for the tree, all shapes for the indices",
    "Tests use a handful of elements; handle reuse and tie situations need random histories.",
    "include/utils/UnionFind.h include/utils/MinimumSpanningTree.h src/utils/MinimumSpanningTree.cpp include/utils/ListPolyIt.h src/utils/ListPolyIt.cpp include/utils/PolygonsPointIndex.h src/utils/PolygonsPointIndex.cpp src/utils/PolygonsSegmentIndex.cpp",
    [("unite and find", "include/utils/UnionFind.h"), ("Prim's algorithm", "src/utils/MinimumSpanningTree.cpp")],
    "shadow partition, independent Kruskal implementation and plain index arithmetic are the oracles",
    parts=[("g08_sets", "asan", 15000, 400000)],
    rule="one evaluation is one random history per structure; distinct by operations",
    assumptions=[SEEDED],
)
prop(
    "G09", "Connecting contours by bridges keeps every contour and draws nothing twice",
    """Connecting nearby contours into one path keeps every contour covered except in the gaps between the two sides of a bridge, adds only bridges between contours no farther apart than the line width
    allows, joins every loop at most into one result, leaves open lines untouched and keeps the line widths.""",
    "inputs", "all sets of closed contours and variable-width lines whose segments are of comparable length, all line widths",
    "Tests connect two squares; the walk around either contour depends on direction, winding and where the bridge lands.",
    "include/utils/PolygonConnector.h src/utils/PolygonConnector.cpp",
    [("connectPolygonsAlongBridge", "include/utils/PolygonConnector.h")],
    "the output is matched against the input contours edge by edge; unmatched edges must be short bridges, unmatched contour parts must lie at a bridge",
    parts=[("g09_connector", "asan", 1300, 30000)],
    rule="one evaluation is one set of nested or adjacent contours connected as polygons and as variable-width lines; non-trivial with two contours; distinct by vertices",
    assumptions=[SEEDED, EXACT, "contour parts running along the line through a bridge are left out by design, however long",
                 "contours with few, very unequal segments are not drawn: there the code picks the way round by counting segments"],
)
prop(
    "G10", "Voxel structures cover what they are asked to cover, and nothing far away",
    """A voxel grid maps every position to the voxel that contains it, voxel traversal of lines, triangles and polygons visits every voxel that the shape passes through and none that it stays
    clear of, dilation visits exactly the kernel around each visited voxel, and a spatial lookup returns the same texels as a search over all of them.""",
    "inputs", "all boxes, cell sizes, lines, triangles, polygons, kernels and query regions",
    "Tests look at one kernel and a few points; coverage of a slanted triangle by voxels depends on every edge crossing.",
    "include/utils/VoxelGrid.h src/utils/VoxelGrid.cpp include/utils/VoxelUtils.h src/utils/VoxelUtils.cpp include/utils/SpatialLookup.h src/utils/SpatialLookup.cpp",
    [("traversal by triangles", "src/utils/VoxelGrid.cpp"), ("traversal by lines and areas", "src/utils/VoxelUtils.cpp")],
    "the visited voxels are recorded and compared with sampled points of the shape and with exact distances",
    parts=[("g10_voxels", "asan", 5000, 150000)],
    rule="one evaluation is one grid with shapes traversed through it; distinct by operands",
    assumptions=[SEEDED, EXACT, "triangles thinner than 15 um are not judged"],
)
prop(
    "G11", "Bridging lines are told anchored from hanging by the area they cross",
    """Where an infill or bridging area is swept along its line direction, the spans of lines that the transformed outline reports as supported, hanging or anchored are those that cutting the
    area by the line gives, spans are merged exactly when they overlap, and a wall segment counts as bridging exactly as the air below it says.""",
    "inputs", "all outlines, line positions, line directions and spans",
    "Tests exercise no transformed outline at all; the sign of each side and the rounding of each overlap decide which lines are extended.",
    "include/bridge/TransformedShape.h src/bridge/TransformedShape.cpp src/bridge/TransformedSegment.cpp src/bridge/ExpansionRange.cpp src/bridge/SegmentOverlappingData.cpp",
    [("TransformedSegment", "src/bridge/TransformedSegment.cpp"), ("ExpansionRange", "src/bridge/ExpansionRange.cpp")],
    "recomputed in long double from the definition",
    parts=[("g11_bridging", "asan", 5000, 150000)],
    rule="one evaluation is one outline with a batch of segments and ranges; distinct by operands",
    assumptions=[SEEDED, EXACT, "segments touching only at the end of their overlap are not judged"],
)
prop(
    "G12", "Measuring, clipping, widening and cleaning lines and shapes is exact",
    """Lengths, areas, centres of mass, crossings and inside tests of lines and shapes equal their exact values; clipping lines to an area, widening them, joining, removing, smoothing and repairing
    shapes keep and drop exactly the parts they are defined to.""",
    "inputs", "all sets of open and closed lines and shapes in the printable range",
    "Tests cover a few squares and hand-made self-intersections; accumulations overflow and clipping rounds only for particular inputs.",
    "src/geometry/Polyline.cpp src/geometry/LinesSet.cpp src/geometry/Polygon.cpp src/geometry/Shape.cpp src/geometry/ClosedPolyline.cpp src/geometry/PointsSet.cpp src/geometry/ClosedLinesSet.cpp",
    [("smooth, removeNearSelfIntersections, ensureManifold", "src/geometry/Shape.cpp"), ("tube shapes", "src/geometry/LinesSet.cpp")],
    "every measure is recomputed exactly; clipped and widened lines are judged at sampled points",
    parts=[("g12_lines", "asan", 700, 20000)],
    rule="one evaluation is one set of lines and shapes put through all operations; distinct by vertices",
    assumptions=[SEEDED, EXACT],
)
prop(
    "P01", "Paths are ordered completely, nearest first, with the right seam",
    """Ordering paths returns every path exactly once with a valid start and direction, obeys all order requirements and wall grouping, otherwise always continues with the path whose start is nearest
    (or touching), and starts each closed path at the vertex that the seam type, corner preference, forced position, overhang and forbidden areas select.""",
    "inputs configurations", "all sets of open and closed paths, seam configurations, order requirements, forbidden and overhang areas and start positions",
    "Tests order a few triangles; a wrong seam or a lost path depends on the configuration, the geometry and the position reached so far.",
    "include/PathOrderOptimizer.h include/path_ordering.h src/path_ordering.cpp src/utils/scoring/BestElementFinder.cpp src/utils/scoring/CornerScoringCriterion.cpp src/utils/scoring/DistanceScoringCriterion.cpp src/utils/scoring/ExclusionAreaScoringCriterion.cpp src/utils/scoring/RandomScoringCriterion.cpp src/utils/scoring/PositionBasedScoringCriterion.cpp",
    [("optimize, findClosestPath, findStartLocation", "include/PathOrderOptimizer.h"), ("findBestElement", "src/utils/scoring/BestElementFinder.cpp")],
    "the walk is replayed by exhaustive search; seams are re-scored independently with an error bound, and only clear differences count",
    parts=[("p01_order", "asan", 9000, 300000)],
    rule="one evaluation is six sets of paths ordered under random configurations and six rankings; distinct by generator state",
    assumptions=[SEEDED, EXACT, "under a combing boundary only completeness, constraints and fixed seams are judged"],
)
prop(
    "P02", "Monotonic ordering sweeps neighbouring lines one way, each exactly once",
    """Monotonic ordering returns every line exactly once, prints any two lines that lie next to each other in the order in which they lie along the monotonic direction, starts each line at
    the end nearer to the nozzle, puts loops last, and splits interlaced surfaces into two passes of alternating rows.""",
    "inputs configurations", "all sets of lines, directions, adjacency distances and start positions, interlaced or not",
    "Tests try a few parallel and zigzag lines; junctions between strings of lines and rows are rare in them.",
    "src/PathOrderMonotonic.cpp include/PathOrderMonotonic.h include/PathOrder.h",
    [("makeOrderedPath", "src/PathOrderMonotonic.cpp")],
    "every pair of neighbouring lines in the output is compared with their exact projections",
    parts=[("p02_monotonic", "asan", 20000, 600000)],
    rule="one evaluation is ten sets of lines ordered; distinct by generator state",
    assumptions=[SEEDED, EXACT, "neighbour order and directions are judged for lines whose ends do not meet; strings of lines are judged for completeness and consistency"],
)
prop(
    "T01", "Parallel loops and the ordered producer/consumer run every item once, in order",
    """For every range, chunking, number of workers and thread schedule, a parallel loop runs its body exactly once for each item and returns only after all of them have finished; the ordered
    producer/consumer produces every item once, consumes each exactly once in increasing order after it was produced, never runs two consumers at a time nor more items ahead than its queue holds, does not race,
    deadlock or touch memory outside its buffer, also for ranges that start below zero; nested loops terminate.""",
    "schedules inputs", "all ranges (negative too), thread counts, chunk and queue sizes, delays, spurious wake-ups and thread schedules",
    "The unit tests do not start the pool at all; lost wake-ups and races need particular interleavings.",
    "include/utils/ThreadPool.h src/utils/ThreadPool.cpp",
    [("parallel_for", "include/utils/ThreadPool.h"), ("run_multiple_producers_ordered_consumer", "include/utils/ThreadPool.h")],
    "an event log of every producer and consumer call is checked; delays and spurious wake-ups are injected through pthread_cond_wait; a watchdog detects deadlocks",
    parts=[("t01_pool", "tsan", 3000, 80000), ("t01_pool", "asan", 2500, 60000)],
    rule="one evaluation is one loop or producer/consumer run on a real pool under injected delays; distinct by configuration and observed order of events",
    assumptions=[SEEDED, "schedules are those the kernel and the injected delays produce; ThreadSanitizer judges the races among them"],
    technique="ThreadSanitizer and an event-log monitor over stress runs with injected delays and spurious wake-ups",
)
prop(
    "P05", "Heating plans reach the wanted temperature in time; the flow graph is continuous",
    """For every pair of temperatures, heating and cooling rate and time window, the planned point at which an extruder starts to cool down, to warm up, or both, is the one at which a nozzle that heats and
    cools at these rates reaches the wanted temperature exactly at the end of the window, is never below the standby temperature, and lies within the window; when the window is too short the plan says so;
    the flow-to-temperature graph interpolates its points and is clamped beyond them.""",
    "inputs configurations", "all temperatures, rates, windows and graphs",
    "Tests cover no heating plan at all.",
    "src/Preheat.cpp include/Preheat.h src/settings/FlowTempGraph.cpp include/settings/FlowTempGraph.h",
    [("warm-up and cool-down points", "src/Preheat.cpp"), ("getTemp", "src/settings/FlowTempGraph.cpp")],
    "each plan is simulated forward with a nozzle model of its own",
    parts=[("p05_heat", "asan", 20000, 600000)],
    rule="one evaluation is one plan simulated; distinct by the inputs",
    assumptions=[SEEDED],
)
prop(
    "P06", "Estimated times follow from the moves under the limits on speed and acceleration",
    """For every sequence of moves, limits, accelerations and jerks the estimated time per kind of line adds up to the time of the whole print, is never shorter than the distance at full speed allows, never longer than
    stopping at every corner would need, does not depend on how often it was reset or computed before, and is additive over prints that stop in between.""",
    "inputs histories", "all move sequences, limits, accelerations, jerks and feature types",
    "Tests estimate a few moves; look-ahead planning depends on the whole sequence.",
    "src/timeEstimate.cpp include/timeEstimate.h",
    [("plan, forward and reverse passes", "src/timeEstimate.cpp")],
    "bounds from kinematics of its own, plus metamorphic relations between sequences",
    parts=[("p06_time", "asan", 5000, 150000)],
    rule="one evaluation is one sequence of moves estimated; distinct by the sequence",
    assumptions=[SEEDED],
)
prop(
    "C01", "Settings are read as they were written, and inherited along the right chain",
    """Every setting value (number, length, angle, percentage, duration, choice, list, matrix, polygon, extruder) is read as the value its text means, unknown choices give the documented default, and a key is looked up
    in the object's own settings, then in the extruder the key is limited to, then in its ancestors - never endlessly.""",
    "inputs configurations histories", "all value texts, all setting types, all inheritance trees and limits, all sequences of additions",
    "Tests read one value per type and look at one inheritance chain.",
    "src/settings/Settings.cpp include/settings/Settings.h include/settings/EnumSettings.h",
    [("get<>", "src/settings/Settings.cpp"), ("limit_to_extruder", "src/settings/Settings.cpp")],
    "a reference model of the lookup and an independent table of the choices",
    parts=[("c01_settings", "asan", 2000, 50000)],
    rule="one evaluation is a set of values read and an inheritance tree queried; distinct by generator state",
    assumptions=[SEEDED],
)
prop(
    "C05", "Every kind of line is printed with the width, flow and speed set for it",
    """For every layer, the width, thickness, flow, extruded volume, speed, acceleration, jerk and fan speed of each kind of line (walls, roofs, floors, bridges, skin, infill, support, raft, skirt, prime tower, travel)
    are those configured for it, of the extruder or object that prints it, with the first layer's flow and width factors on the first layer and the speeds ramping up from the first layer's speed over the slow layers.""",
    "configurations inputs", "all values of the settings concerned, per extruder and per object; all layers including those of rafts; all extruder assignments",
    "Tests check no configuration at all; a value read from the wrong extruder shows only when extruders differ.",
    "src/settings/PathConfigStorage.cpp src/settings/MeshPathConfigs.cpp src/pathPlanning/SpeedDerivatives.cpp src/GCodePathConfig.cpp include/GCodePathConfig.h",
    [("PathConfigStorage", "src/settings/PathConfigStorage.cpp"), ("smoothSpeed", "src/pathPlanning/SpeedDerivatives.cpp")],
    "every setting has a distinct random value per extruder and object; an independent table says which one each configuration must use",
    parts=[("c05_configs", "asan", 4000, 100000)],
    rule="one evaluation is one layer's configurations compared; distinct by generator state",
    assumptions=[SEEDED, "bridge lines and lines that support skin keep their speed on the first layers"],
)
prop(
    "W01", "Beads of variable-width walls fill the thickness, in order and within limits",
    """For every combination of the bead strategies and thickness, the beads of a wall are symmetric, ordered, do not overlap or reach outside the outline, fill the thickness or leave exactly the stated rest, respect
    the least widths and the greatest number of beads, and the optimal count, the transition thicknesses and the anchor positions agree with each other.""",
    "inputs configurations", "all thicknesses, bead counts, widths, thresholds, distributions and stackings of strategies",
    "Tests check no strategy beyond a few thicknesses of the default stack.",
    " ".join("src/BeadingStrategy/" + x for x in "BeadingStrategy.cpp BeadingStrategyFactory.cpp DistributedBeadingStrategy.cpp LimitedBeadingStrategy.cpp OuterWallInsetBeadingStrategy.cpp RedistributeBeadingStrategy.cpp WideningBeadingStrategy.cpp".split()),
    [("compute", "src/BeadingStrategy/DistributedBeadingStrategy.cpp"), ("meta-strategies", "src/BeadingStrategy/BeadingStrategyFactory.cpp")],
    "each strategy is compared to a model of its own, each stack to the invariants of a division of the thickness",
    parts=[("w01_beading", "asan", 4000, 150000)],
    rule="one evaluation is one stack of strategies, asked for many thicknesses and counts; distinct by its parameters",
    assumptions=[SEEDED, "places are compared within 3 um and 1.5 um per bead, for the rounding of each bead"],
)
prop(
    "I01", "Infill stays in its area and covers it with the lines of its pattern",
    """For every area, pattern, density, angle, shift, height and combination of options, infill lines stay inside the area they are to fill, every scan line of a linear pattern is printed over its whole length and no
    other line is, zigzags are connected on alternating sides only, and the gyroid, honeycomb and octagon patterns are those of their equations.""",
    "inputs configurations", "all areas, patterns, line distances, angles, shifts, heights, multipliers and connection options",
    "Tests fill a few areas and check totals; a missing or displaced line needs particular geometry or shifts.",
    "src/infill.cpp src/infill/GyroidInfill.cpp src/infill/ZigzagConnectorProcessor.cpp src/infill/NoZigZagConnectorProcessor.cpp src/infill/AbstractLinesInfill.cpp src/infill/RegularNGonalInfill.cpp include/infill/ZigzagConnectorProcessor.h",
    [("generateLinearBasedInfill", "src/infill.cpp"), ("connectLines", "src/infill.cpp"), ("zigzag connectors", "src/infill/ZigzagConnectorProcessor.cpp")],
    "scan lines are intersected exactly with the area and compared to the lines printed; the other patterns are compared to their equations",
    parts=[("i01_infill", "asan", 1000, 40000)],
    rule="one evaluation is one area filled; distinct by area, pattern and density",
    assumptions=[SEEDED, "lines that are tied to each other may bend by a line width near the contour", "zigzag connectors are judged at line distances of three widths and more"],
)
prop(
    "C04", "Mesh files of every supported kind are read completely and correctly",
    """Whatever its format (text or binary STL, OBJ with and without texture coordinates), line ends, number format and header, a mesh file gives exactly the faces it holds, placed and scaled as the
    settings say, with vertices joined, neighbours found, bounds right and texture coordinates attached; a broken file is refused without harm.""",
    "inputs", "all STL and OBJ files and their texture coordinate files, all mesh placement settings",
    "Tests load two files; formats differ in details that only some exporters use.",
    "src/MeshGroup.cpp src/mesh.cpp include/mesh.h include/MeshGroup.h src/utils/Matrix4x3D.cpp src/TextureDataProvider.cpp",
    [("loadMeshSTL, loadMeshOBJ", "src/MeshGroup.cpp"), ("addFace, finish", "src/mesh.cpp")],
    "generated models are written in many dialects by a writer of our own, read by the engine and compared face by face to the model",
    parts=[("c04_mesh", "asan", 3500, 120000)],
    rule="one evaluation is one file read; distinct by its faces and dialect",
    assumptions=[SEEDED, "negative (relative) OBJ indices are not drawn: the engine does not support them"],
)
CLI = ["rel", "asan"]
SLICES = "slices of generated models under generated settings; the front end's consistency rules between settings are kept, its formulas are not evaluated"
E2E = "runtime monitoring of whole slices (command line, generated models and settings): an independent interpreter of the g-code judges every line"
prop(
    "M01", "Slicing any model under any settings is free of memory errors and crashes",
    """Whatever closed, open, self-intersecting, degenerate or truncated mesh file it is given, and whatever combination of settings, extruders, special meshes and threads, the engine neither reads nor
    writes memory it does not own, nor runs into undefined arithmetic, failed assertions, uncaught exceptions or endless loops: it writes g-code or refuses the input.""",
    "inputs configurations", "all mesh files with coordinates in the printable range, all settings, 1-3 meshes, 1-3 extruders, thread counts",
    "No test slices with more than a few settings; stale iterators and out-of-range indices need combinations of features and geometry.",
    "src/main.cpp src/FffGcodeWriter.cpp src/LayerPlan.cpp src/LayerPlanBuffer.cpp src/sliceDataStorage.cpp src/skin.cpp src/infill.cpp src/support.cpp src/SkirtBrim.cpp src/MeshGroup.cpp src/mesh.cpp src/slicer.cpp src/arachne/SkeletalTrapezoidation.cpp src/TreeSupport.cpp src/infill/SierpinskiFill.cpp src/utils/AABB.cpp",
    [("whole pipeline", "src/FffPolygonGenerator.cpp"), ("mesh loading", "src/MeshGroup.cpp")],
    "the whole engine runs under ASan, UBSan and the standard library's assertions on randomly drawn jobs and broken files",
    module="m01", technique="AddressSanitizer, UBSan and library assertions over whole slices of random and broken input",
    rule="one evaluation is one complete run of the engine; distinct by the g-code written",
    assumptions=[SEEDED, SLICES, "leaks are not looked for", "coordinates outside the printable range and not-a-number coordinates are not drawn"],
)
prop(
    "E03", "The same job always gives the same g-code, with any number of threads",
    """Slicing the same models with the same settings gives the same g-code byte for byte on every run and with every number of threads, as long as no feature is on that draws random numbers; with such
    features it still does when a single thread is used.""",
    "schedules configurations", "all jobs, all thread counts and schedules, memory layouts",
    "The tests never slice twice; orders that depend on addresses or on which thread finishes first show up only sometimes.",
    "include/utils/ThreadPool.h src/utils/ThreadPool.cpp src/FffGcodeWriter.cpp src/FffPolygonGenerator.cpp src/arachne/SkeletalTrapezoidation.cpp src/TreeSupport.cpp src/LayerPlan.cpp",
    [("parallel_for, ordered consumer", "include/utils/ThreadPool.h"), ("connectJunctions", "src/arachne/SkeletalTrapezoidation.cpp")],
    "every job is sliced two or three times with different thread counts (and address layouts) and the outputs compared byte for byte",
    module="e03", technique="differential monitoring of repeated runs under varied schedules and address layouts",
    rule="one evaluation is one job sliced two or three times; distinct by the g-code",
    assumptions=[SEEDED, SLICES, "the SLICE_UUID header line is a random number by design", "random seams, fuzzy skin, lightning infill and random infill starts draw from one shared generator"],
)
prop(
    "E01", "All g-code is well-formed: numbers, layers, features, build volume",
    """Every line of the g-code can be parsed, all its numbers are finite and within the format's precision, layers are announced in order, without gaps and as many as stated, material is
    only laid down after a layer and a feature are announced, at a positive speed, and inside the build volume.""",
    "inputs configurations", "all models inside the build volume, all settings, flavours with a standard syntax",
    "Tests look at single commands written by the exporter; no test reads a whole file.",
    "src/gcode_export/gcodeExport.cpp include/gcode_export/gcodeExport.h src/FffGcodeWriter.cpp src/LayerPlan.cpp include/utils/string.h src/communication/CommandLine.cpp",
    [("number output", "include/utils/string.h"), ("layer comments", "src/LayerPlan.cpp")],
    "a strict parser reads every line and checks the grammar and the state machine",
    module="e01", technique=E2E,
    rule="one evaluation is one job sliced; distinct by the g-code",
    assumptions=[SEEDED, SLICES, "the BFB and MakerBot dialects are only checked for crashes"],
)
prop(
    "E02", "The header's material use, print time and bounding box are those of the g-code",
    """The filament length or volume stated per extruder is what the moves push through that extruder (up to the retraction left at the end), the elapsed times grow, end at the total, and the stated bounding box
    contains all printed moves and is no larger than the moves of the head.""",
    "inputs configurations histories", "all models, settings, flavours with such a header, extruder and mesh group sequences",
    "The totals accumulate over extruder switches, resets and mesh groups; tests check none of that.",
    "src/gcode_export/gcodeExport.cpp src/FffGcodeWriter.cpp src/timeEstimate.cpp src/LayerPlan.cpp src/communication/CommandLine.cpp",
    [("getTotalFilamentUsed, resetExtrusionValue", "src/gcode_export/gcodeExport.cpp"), ("getFileHeader", "src/gcode_export/gcodeExport.cpp")],
    "the extrusion of all moves is summed per tool by an interpreter of the g-code and compared with the header",
    module="e02", technique=E2E,
    rule="one evaluation is one job sliced; distinct by the g-code",
    assumptions=[SEEDED, SLICES],
)
prop(
    "E06", "Layers are flat, in order, at their heights, and never below printed material",
    """Every layer is printed at one height, the one its number and the settings give (including rafts, adaptive layers and air gaps; only support may be lower, within its layer), from the plate to the top of the
    models, and the nozzle never moves sideways below what is already printed.""",
    "inputs configurations", "all models and settings except spiralize, scarf seams, surface modes and molds",
    "Heights combine raft, overlap, hops and adaptive layers; tests check no z coordinate of a whole print.",
    "src/LayerPlan.cpp src/gcode_export/gcodeExport.cpp src/FffGcodeWriter.cpp src/slicer.cpp src/raft.cpp src/settings/AdaptiveLayerHeights.cpp src/FffPolygonGenerator.cpp",
    [("writeZhop", "src/gcode_export/gcodeExport.cpp"), ("layer heights", "src/raft.cpp"), ("SlicerLayer z", "src/slicer.cpp")],
    "heights of all moves are compared with heights computed from the settings",
    module="e06", technique=E2E,
    rule="one evaluation is one job sliced; distinct by the g-code",
    assumptions=[SEEDED, SLICES, "support heights are only required to lie within their layer"],
)
prop(
    "E07", "What is printed is the model: contained, outlined and closed",
    """On every layer, walls, skin and infill stay inside the model's cross-section there, an outer wall runs along its whole outline (where a bead fits), the top and bottom layers are solid wherever
    nothing is above or below, and dense infill leaves no gap.""",
    "inputs configurations", "all models and settings that do not deliberately change the shape",
    "No test compares a sliced model with its geometry.",
    "src/slicer.cpp src/layerPart.cpp src/WallsComputation.cpp src/WallToolPaths.cpp src/skin.cpp src/infill.cpp src/FffGcodeWriter.cpp src/FffPolygonGenerator.cpp src/InsetOrderOptimizer.cpp src/LayerPlan.cpp src/arachne/SkeletalTrapezoidation.cpp",
    [("processSliceData", "src/FffPolygonGenerator.cpp"), ("processSkin, processInfill, processWalls", "src/FffGcodeWriter.cpp")],
    "the models are solids with known analytic cross-sections; printed lines are compared with them per layer",
    module="e07", technique=E2E,
    rule="one evaluation is one job sliced; distinct by the g-code",
    assumptions=[SEEDED, SLICES, "regions narrower than a few line widths, and layers whose slicing plane meets a face of the model, are not judged"],
)
prop(
    "E08", "The material laid down is what the geometry needs, in any form it is written",
    """The volume extruded on a layer is the volume of the model there times the flow; a job written with absolute or relative extrusion or as volumes moves the nozzle the same way and extrudes the same amounts,
    without drift however long the print.""",
    "inputs configurations", "all models and settings; the volume for solid models without deliberate shape changes",
    "Extrusion is computed from widths, heights, flows and unit changes over several files; no test adds it up.",
    "src/gcode_export/gcodeExport.cpp src/LayerPlan.cpp src/PathAdapter.cpp src/pathPlanning/GCodePath.cpp src/GCodePathConfig.cpp src/settings/PathConfigStorage.cpp src/settings/MeshPathConfigs.cpp src/WallToolPaths.cpp src/infill.cpp",
    [("mm3ToE, writeExtrusionG1", "src/gcode_export/gcodeExport.cpp"), ("getExtrusionMM3perMM", "src/pathPlanning/GCodePath.cpp")],
    "two slices of a job in different forms are compared line by line; the extruded volume per layer is compared with the volume of the model's section",
    module="e08", technique=E2E,
    rule="one evaluation is one job sliced (in one or two forms); distinct by the g-code",
    assumptions=[SEEDED, SLICES, "the volume of a layer is judged within -0.25 and +0.4 line widths along its outline"],
)
prop(
    "E04", "Retractions balance, nothing prints while retracted, travels follow the rules",
    """Every retraction is undone by exactly its amount (and the set priming) before material is laid down; no more retractions than the set limit fall in its window; travels longer than the minimum retract
    and hop as set; an unretracted combed travel stays inside the printed parts.""",
    "inputs configurations histories", "all models and settings, with one or more extruders and firmware or slicer retractions",
    "Retraction state is spread over the whole print; tests of travels look at single moves of one model.",
    "src/LayerPlan.cpp src/gcode_export/gcodeExport.cpp src/pathPlanning/Comb.cpp src/pathPlanning/LinePolygonsCrossings.cpp src/ExtruderPlan.cpp src/InsetOrderOptimizer.cpp src/FffGcodeWriter.cpp",
    [("writeRetraction, writeUnretractionAndPrime", "src/gcode_export/gcodeExport.cpp"), ("addTravel", "src/LayerPlan.cpp"), ("optimizePath", "src/pathPlanning/LinePolygonsCrossings.cpp")],
    "a virtual machine follows the filament of every extruder through all moves, and every travel is judged by its distance, its retraction and where it leads",
    module="e04", technique=E2E,
    rule="one evaluation is one job sliced; distinct by the g-code",
    assumptions=[SEEDED, SLICES],
)

prop(
    "E05", "Nothing prints cold, heaters follow the layers and all is off at the end",
    """No nozzle lays down material before it was heated (and waited for) within the temperatures set for it; nozzles and bed follow the settings of the first and the later layers, in
    every mesh group. Extruders that aren't used for long are set to standby and heated again in time; those that aren't used stay cold. At the end every heater the print switched on is off.""",
    "inputs configurations histories", "all models and settings, up to three extruders, five firmwares, prime tower, groups printed one by one",
    "Which heater command comes when depends on the times of all layers around it, kept in a buffer of plans; the tests of it insert commands into a few plans.",
    "src/LayerPlanBuffer.cpp src/Preheat.cpp src/LayerPlan.cpp src/ExtruderPlan.cpp src/FffGcodeWriter.cpp src/gcode_export/gcodeExport.cpp src/FffPolygonGenerator.cpp",
    [("insertTempCommands, handleStandbyTemp", "src/LayerPlanBuffer.cpp"), ("processInitialLayerTemperature, finalize", "src/FffGcodeWriter.cpp"), ("writeTemperatureCommand", "src/gcode_export/gcodeExport.cpp")],
    "a virtual printer keeps the targets of every heater, told only by the commands, and simulates the heating and cooling of idle nozzles; every printed line is judged against them",
    module="e05", technique=E2E,
    rule="one evaluation is one job sliced; distinct by the g-code",
    assumptions=[SEEDED, SLICES, "a start g-code that was left to heat the first nozzle does so"],
)
prop(
    "E09", "Every line is printed at its speed, acceleration, jerk and cooling",
    """Every line is printed at a speed, acceleration and jerk set for its feature and layer, travels at theirs; lines are only slowed down, no further than the minimum speed, and as far as
    the minimum layer time needs it. The fan follows the layers and their times as set.""",
    "inputs configurations", "all features, layers and firmwares; minimum layer times of layers printed with one extruder",
    "Speeds are changed by layer, feature, size and the time of the whole layer; tests look at the numbers of single paths.",
    "src/ExtruderPlan.cpp src/LayerPlan.cpp src/LayerPlanBuffer.cpp src/GCodePathConfig.cpp src/pathPlanning/SpeedDerivatives.cpp src/settings/PathConfigStorage.cpp src/settings/MeshPathConfigs.cpp src/gcode_export/gcodeExport.cpp",
    [("forceMinimalLayerTime, computeNaiveTimeEstimates", "src/LayerPlan.cpp"), ("PathConfigStorage", "src/settings/PathConfigStorage.cpp"), ("writeFanCommand, writePrintAcceleration, writeJerk", "src/gcode_export/gcodeExport.cpp")],
    "a virtual printer keeps speed, acceleration, jerk and fan for every move; the time of every layer is summed from its moves and compared with what the settings demand",
    module="e09", technique=E2E,
    rule="one evaluation is one job sliced; distinct by the g-code",
    assumptions=[SEEDED, SLICES, "times are judged within 5 % and some tenths of seconds, as the engine estimates them; overhanging, bridging, small and spiralized lines have speeds of their own and are judged by bounds or not at all"],
)
