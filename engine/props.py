"""Source of properties.jsonl and MANIFEST.json:  python3 engine/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed
NA = []     # not applicable
VN = "gated value numbering (abstract interpretation of the compiled IR, polynomial normal forms)"
TRUST = ("Covers every input of the entry points at once, with no bound on magnitudes; trusts clang's front end, the "
         "analyser in /verif/engine, and the integer model of the big-integer class (whose own arithmetic is decided "
         "separately).")


def prop(id, title, statement, over, quant, why, files, mech, technique, level="proof", note=TRUST, state=(), observe=(), na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": quant},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                     "observe_at": list(observe), "hook_needed": None}}
    assert len(title) <= 80, title
    P.append((d, technique, level, note, na))


prop("C01", "Side classification of points and planes against half-spaces is exact",
     "For every 2D or 3D half-space and every point, given with integer coordinates or with any nonzero homogeneous "
     "denominator of either sign, the reported side is the sign of normal.point minus distance evaluated exactly on the "
     "rational point, and the point is reported coincident exactly when that value is zero. Comparing a half-space with "
     "a parallel plane orders them along the normal with ties exactly for coplanar planes, whatever the scale and "
     "orientation of either. Negating a half-space exchanges its two sides and keeps its boundary.",
     ["inputs"], "all coefficient and coordinate values of any magnitude, all nonzero denominators of either sign",
     "The tests sample a few dozen small coordinates, mostly with positive denominators; a sign slip shows only for a "
     "particular mix of denominator, scale and coefficient signs.",
     ["include/walnut/half_space3.h", "include/walnut/half_space2.h"],
     [("exact sign of the dot product", "HalfSpace3::Compare, HalfSpace2::Compare"), ("denominator sign correction", "BigInt::GetAbsMult")],
     VN, observe=["return value of Compare / IsCoincident"])
prop("C02", "Point comparison depends only on the rational point, not its representation",
     "Equality, inequality and every ordering of homogeneous points (lexicographic, topmost, per component) and of "
     "rationals compare the rational coordinates exactly, for every mix of denominator signs and scales, and mixed "
     "comparisons with integer points agree with them. Rounding a rational up or down to a given denominator returns "
     "the nearest representable value on the requested side.",
     ["inputs"], "all numerators and all nonzero denominators of either sign",
     "Tests compare small points that usually have positive denominators; only particular sign and scale mixes expose a "
     "missing correction.",
     ["include/walnut/homo_point3.h", "src/walnut/homo_point3.cpp", "include/walnut/homo_point2.h", "include/walnut/point3.h", "include/walnut/rational.h"],
     [("cross multiplication with sign flip", "HomoPoint3::LexicographicallyLt, TopnessLt, CompareComponent; HomoPoint2; rational::*")],
     VN, observe=["comparison results"])
prop("C03", "Orientation, rotation and vector predicates are exact",
     "The turn direction of three points after dropping any axis is the sign of the exact cross product of the rational "
     "points, zero exactly when they are collinear, for every mix of denominator signs. Full-turn and half-turn "
     "rotation orders of 2D vectors sort by the exact angle, and same-direction / same-or-opposite-direction tests hold "
     "exactly for positive / nonzero multiples. Vector sums, differences, dot and cross products, negation, scaling, "
     "quarter turns and dropped-axis projections return the exact components.",
     ["inputs"], "all vectors and points, all nonzero denominators of either sign, all three dropped axes",
     "Collinear triples with mixed denominator signs, axis-aligned vectors and opposite vectors form thin sets that a "
     "handful of samples misses.",
     ["src/walnut/homo_point3.cpp", "include/walnut/point3.h", "include/walnut/point2.h", "include/walnut/vector2.h", "include/walnut/vector3.h", "include/walnut/rational.h"],
     [("sign of the cross product", "HomoPoint3::Get2DTwistDir, Point2::GetTwistDir"), ("rotation order", "Vector2::IsRotationLessThan, rational::IsHalfRotationLessThan")],
     VN, observe=["predicate results"])
prop("C04", "Constructed planes, lines and points satisfy their incidence relations",
     "A plane built from three points, or from a normal and a point, contains them and faces the documented side; a line "
     "built from two points or two planes is exactly the line through or common to them with the documented direction; "
     "intersecting a line with a plane, projecting along an axis, extruding, offsetting a point and taking point "
     "differences return exactly the rational result. Removing common factors never changes the point, line, vector or "
     "half-space denoted, and leaves points with a positive denominator.",
     ["inputs"], "all inputs for which the constructed object is valid, all axes, all denominator signs",
     "Tests check a few hand-computed objects; wrong sign handling for one denominator sign or one axis is invisible to them.",
     ["include/walnut/half_space3.h", "src/walnut/half_space3.cpp", "include/walnut/half_space2.h", "include/walnut/plucker_line.h", "src/walnut/plucker_line.cpp", "src/walnut/homo_point3.cpp", "src/walnut/vector3.cpp"],
     [("determinant formulas", "HalfSpace3 and PluckerLine constructors, Intersect, Project2D, ProjectOntoPlane"), ("Reduce", "HomoPoint3, HalfSpace3, PluckerLine, Vector3")],
     VN, observe=["components of the constructed object"])
prop("C05", "Plane and line equality ignore scale, and their orders are strict weak orders",
     "Two half-spaces or directed lines compare equal exactly when one is a positive multiple of the other, and the "
     "side-insensitive variants when one is any nonzero multiple. The orderings used to store planes and lines in sorted "
     "containers are irreflexive, asymmetric and transitive, and treat two objects as equivalent exactly when the "
     "corresponding equality does.",
     ["inputs"], "all pairs and triples of valid half-spaces and lines",
     "Order axioms quantify over all pairs and triples; the tests insert one list of sixteen planes into a set.",
     ["include/walnut/half_space3.h", "include/walnut/half_space2.h", "include/walnut/half_space2_sideless_compare.h", "src/walnut/plucker_line.cpp"],
     [("pivot cross multiplication", "operator== of HalfSpace3, HalfSpace2, PluckerLine"), ("canonical scaling", "HalfSpace3Compare, HalfSpace2SidelessCompare")],
     VN, observe=["comparison results", "std::set contents"])

WN = "abstract interpretation of the compiled IR over symbolic machine words (carry-normalised polynomials)"
WTRUST = ("Each operand word ranges over all 2^64 values; the number of words per operand is bounded (see the evidence "
          "file), larger operands run through the same loops. Trusts clang's front end and the analyser in /verif/engine. "
          "Obligations whose normal form does not close are listed as undecided in the evidence.")
prop("C07", "Big integer arithmetic equals integer arithmetic and stores results minimally",
     "Addition, subtraction, multiplication, fused multiply-add/subtract, negation, absolute value, left shift, "
     "increment, decrement, their compound forms (also when an operand is the object itself) and their forms with an "
     "int or word operand return exactly the mathematical integer, for every sign and word-boundary combination, never "
     "overflow, and leave the result in its unique minimal representation. One-word division and remainder truncate "
     "toward zero and never fault on the most negative word.",
     ["inputs"], "all operand values up to three words each (products up to 2x2 and 1x3 words)",
     "Carries out of particular words, the most negative word, and results that shrink by exactly one word need "
     "operands a random test practically never draws.",
     ["include/walnut/big_int.h", "src/walnut/big_int.cpp", "include/walnut/big_uint_word.h", "include/walnut/big_int_words.h", "include/walnut/big_uint.h"],
     [("word loops with carry", "BigInt::Add, Subtract, operator+=, MultiplySlow, operator<<"), ("half-word fast paths", "BigInt::AllHalfWords"), ("Trim", "BigInt::CanTrim")],
     WN, level="other", note=WTRUST, observe=["words and word count of the result"])
prop("C08", "Big integer comparisons, sign queries and conversions are exact",
     "The six comparisons, the three-way comparison and the flippable orders agree with the integers denoted, for every "
     "pair of word counts and for int operands; sign, zero and same-sign queries report the sign of the value; "
     "conversions from ints, words and unsigned big integers and the largest and smallest values of a bit width denote "
     "exactly the requested integer in minimal form.",
     ["inputs"], "all operand values up to three words each, all ints",
     "Operands that agree in all but one inner word, or that straddle a word boundary, are rarely sampled.",
     ["include/walnut/big_int.h", "src/walnut/big_int.cpp", "include/walnut/big_uint_word.h"],
     [("top word signed, others unsigned", "BigInt::operator<, Compare, LessThan"), ("sign word", "BigInt::GetSign, GetAbsMult, HasSameSign")],
     WN, level="other", note=WTRUST, observe=["returned truth values"])
prop("C09", "Big integer storage is owned exactly once and never misused",
     "Copying, moving, assigning (also to itself), swapping, reusing a moved-from object, computing and destroying big "
     "integers never reads unwritten or released words, never writes outside a block, never releases a block twice, "
     "never lets two live objects share a block, never loses a block, leaves untouched operands unchanged, and yields "
     "the copied or moved value.",
     ["inputs", "histories"], "all values up to three words with exact or spare capacity, all the listed operations",
     "Aliasing, spare capacity and moved-from reuse combine in ways the value-based tests neither reach nor observe.",
     ["include/walnut/big_int_words.h", "include/walnut/big_int.h", "include/walnut/big_uint.h"],
     [("capacity header", "BigIntWords::AllocateExtra, resize, Assign"), ("swap on move", "BigIntWords::operator=(BigIntWords&&)")],
     WN, level="other", note=WTRUST, observe=["heap blocks, returned values"])
prop("C06", "Bounding boxes contain, compare, measure and wall exactly",
     "An axis-aligned box contains a point (integer or homogeneous with any denominator sign) exactly when every "
     "coordinate lies within its rational bounds, and the point is on the border exactly when it is inside and on a "
     "bound; the default box contains nothing. The box built from two points, or from a radius, is the exact one; "
     "equality ignores the common denominator; the diagonal length is the length of the exact diagonal; a box lies on "
     "one side of a plane exactly when all its corners do. The six wall facets carry the outward planes and have "
     "counter-clockwise box corners on those planes.",
     ["inputs"], "all integer bounds, all nonzero denominators of either sign, all query points and planes",
     "Boxes with negative or non-unit denominators and points on exactly one bound are not what the tests try.",
     ["include/walnut/aabb.h", "src/walnut/aabb.cpp"],
     [("common-denominator bounds", "AABB constructors, IsInside, IsOnBorder, PlaneSide"), ("walls", "AABB::GetWalls")],
     VN, observe=["query results, wall facets"])

SN = "gated value numbering of the IR per sign pattern of convex polygons (abstract interpretation)"
STRUST = ("Coordinates, lines and planes stay symbolic; the sign patterns come from concrete convex polygons with a bounded "
          "number of vertices (more in the thorough tier), so larger polygons and patterns not met by the generator are not "
          "covered. Trusts clang's front end, the analyser and the integer model of the big-integer class.")
prop("C19", "Splitting a convex polygon by a plane partitions it exactly",
     "For every convex polygon, with any vertex representation, normal orientation and starting vertex, and every plane, "
     "a negative child is reported exactly when some vertex lies below the plane and a positive child exactly when some "
     "vertex lies above it. The split children list exactly the parent's vertices of their side in order, with the exact "
     "crossing point inserted on each crossed edge and vertices on the plane shared by both; each child edge keeps the "
     "line of the parent edge it lies on, and the new edges run along the split line in opposite directions: the last two "
     "vertices of the negative child, the last and first of the positive child, lie on the plane. Plane and drop dimension "
     "are the parent's. Consuming the parent gives the same children as copying it. The binary search used on larger "
     "polygons finds the same ranges as scanning the vertices.",
     ["inputs"], "all convex polygons and planes; every position of the starting vertex and every mix of denominator signs",
     "Vertices exactly on the plane, crossings at the first and last edge, the binary search and mixed denominator signs "
     "combine into hundreds of patterns of which tests try a handful.",
     ["include/walnut/convex_polygon.h", "src/walnut/convex_polygon.cpp", "include/walnut/convex_polygon_split_info.h"],
     [("vertex classification", "ConvexPolygon::GetSplitInfo, GetSplitRanges"), ("children", "ConvexPolygon::CreateSplitChildren, FillInSplitChildren")],
     SN, level="other", note=STRUST, observe=["ShouldEmit*Child, child vertices, edge lines and plane"])
prop("C23", "Cached bounding boxes follow every change of a polygon",
     "A polygon that caches its bounding box always reports, for each axis, a vertex of minimal and of maximal coordinate, "
     "and a box that contains every vertex: its denominator is the largest denominator magnitude among the extreme "
     "vertices and each bound is the extreme coordinate rounded outwards to that denominator. This holds when it is built "
     "from vertices or from a plain polygon, copied, moved, rotated to another start, sorted, inverted, gets an edge split, "
     "merges a neighbour or is split by a plane (for both children, also when the parent is consumed). Deciding the side "
     "of a plane through the box never changes which children a split emits nor their contents.",
     ["inputs", "histories"], "all convex polygons, planes and sequences of the listed operations",
     "The recorded extreme indices are remapped instead of recomputed; ties, wrap-around and children whose extremes lie on "
     "the split line need particular coordinates to go wrong, and a wrong box only drops geometry later.",
     ["include/walnut/aabb_convex_polygon.h", "include/walnut/convex_vertex_aabb_tracker.h", "include/walnut/aabb.h"],
     [("extreme remapping", "ConvexVertexAABBTracker::SplitComponent, RotateIndices"), ("outward rounding", "ConvexVertexAABBTracker::ApproximateExtremes, UpdateExtremes"),
      ("box shortcut", "AABBConvexPolygon::GetSplitInfo")],
     SN, level="other", note=STRUST, observe=["aabb(), min/max_vertex_index(), split children"])
prop("C24", "Extreme vertices, projected area and centroid of polygons are exact",
     "For every convex polygon with any vertex representation, orientation and starting vertex, the search for the vertex "
     "farthest along a 2D or 3D direction returns a vertex whose exact projection is maximal; the search for opposite "
     "edges returns an edge running most along the direction and one running against it; the projected area is the exact "
     "shoelace area up to its documented factor, and the centroid is the exact centroid of the polygon and lies on its "
     "plane.",
     ["inputs"], "all convex polygons and directions, including directions parallel to edges and mixed denominator signs",
     "Binary searches over cyclic vertex lists fail only for particular sizes, starts and ties; area and centroid only for "
     "non-unit denominators.",
     ["include/walnut/convex_polygon.h", "src/walnut/convex_polygon.cpp"],
     [("cyclic binary search", "ConvexPolygon::GetExtremeIndexBisect, GetOppositeEdgeIndicesBisect"), ("shoelace sums", "ConvexPolygon::GetProjectedArea, GetProjectedCentroid, GetCentroid")],
     SN, level="other", note=STRUST, observe=["returned indices, area and centroid"])
prop("C25", "Polygon equality, reordering, merging and inversion preserve the polygon",
     "Two polygons compare equal exactly when plane, number of vertices, cyclic vertex sequence and the data of every edge "
     "agree, wherever each one starts; inequality is its negation. Copying, moving, rotating the start and sorting keep "
     "every vertex together with its edge line and edge data, and sorting starts at the lexicographically smallest vertex. "
     "Inverting reverses the vertex order, negates every edge line and the plane. Splitting an edge inserts the given "
     "vertex and gives both parts the line and data of the original edge; split children keep the edge data of the parent "
     "edges. Merging two polygons across a shared edge succeeds exactly when planes match in direction and the union is "
     "convex, yields exactly the vertices of the union, dropping the end points of the shared edge where the outline is "
     "straight and the edge data agree, and otherwise leaves both polygons unchanged.",
     ["inputs", "histories"], "all pairs of convex polygons sharing an edge, all starts and edge data",
     "Dropped collinear vertices, wrap-around at the first edge and disagreeing edge data interact; tests pair a few squares.",
     ["include/walnut/convex_polygon.h", "include/walnut/mutable_convex_polygon.h", "include/walnut/convex_polygon_edge.h"],
     [("cyclic comparison", "ConvexPolygon::operator=="), ("merging", "ConvexPolygon::TryMergePolygon"), ("reordering", "ConvexPolygon::SortVertices, RotateEdges, Invert, SplitEdge")],
     SN, level="other", note=STRUST, observe=["vertices, edge lines, edge data, plane"])

prop("C10", "Filters compute the set operation and stop only when it is decided",
     "For every assignment of winding numbers and polygon counts to content ids, each filter answers inside exactly when "
     "the set operation applied to its operands says so: a single id is inside when its winding number is positive (odd, "
     "for the odd filter; not positive, for the inverted one), and an id the cell has never seen has winding number zero and no polygons; "
     "id lists (with repeats, absent ids, empty, or replaced later) mean union, intersection, or first minus the rest; "
     "the combining filters mean and, or, and not, exclusive or of their operands. It answers undecided exactly when operands "
     "with polygons in the cell could still change the result, so a subtree is accepted or rejected as a whole only if "
     "every leaf below it would get the same answer, and the collecting visitor uses the answer unchanged.",
     ["inputs", "configurations"], "all winding numbers, polygon counts, id lists up to the bound and operand answers",
     "A wrong undecided bit loses or duplicates facets only when ids overlap in one cell; tests use a few pairs of cubes.",
     ["include/walnut/boolean_operation_filter.h", "include/walnut/bsp_visitor.h", "include/walnut/bsp_content_info.h"],
     [("id filters", "PolygonFilter, InvertedPolygonFilter, OddPolygonFilter"), ("id lists", "UnionIdsFilter, IntersectIdsFilter, SubtractIdsFilter"),
      ("combinators", "IntersectionFilter, UnionFilter, SubtractionFilter, XORFilter"), ("pass through", "CollectorVisitor::IsInside")],
     SN, level="other", note=STRUST, observe=["the (inside, undecided) pair"])

CN = "abstract interpretation of the IR over symbolic coordinates, one sign cell of the input space at a time"
CTRUST = ("Coordinates, lines and planes stay symbolic; each result holds for every input with the recorded signs. The cells are "
          "the ones of generated representatives in general and special position, so coverage of the input space is by cells, not total.")
prop("C11", "Splitting a BSP node sends every piece to its side and records its boundary",
     "When a node is split by a plane, every polygon in it ends in the child on whose side it lies, a straddling one is cut "
     "into exactly its two parts, and one lying on the plane becomes border content of the negative child if the normals "
     "agree and of the positive child otherwise; border polygons stay border polygons. Every edge and vertex on the plane "
     "records the plane and the child's side as its last (and, for edges, if none before, first) coincident split, the "
     "cut edge records the split that created it, and pieces keep all other records, their content id, supporting plane and "
     "edge lines. The interior node keeps no polygons, each leaf counts exactly its interior and border polygons per id, "
     "and all this is the same whether contents are added before, between or after the splits, one by one or together, "
     "copied or moved, with known or new ids, and whatever records the added polygons carried."
     " No assertion fails, and no memory is leaked or used after it ended.",
     ["inputs", "histories"], "all polygons, split sequences and interleavings of adding and splitting within the cells",
     "Wrong records or counters corrupt the winding numbers and the result only several splits later; tests check few one-plane splits.",
     ["include/walnut/bsp_node.h", "include/walnut/bsp_polygon.h", "include/walnut/bsp_edge_info.h", "include/walnut/bsp_tree.h"],
     [("distribution", "BSPNode::PushContentsToChildren, PushBorderContentsToChildren, PushContentsToLeaves"),
      ("records", "BSPPolygon::SetBoundaryAngles, SetChildBoundaryAngles, BSPEdgeInfo constructors"), ("adding", "BSPTree::AddContent, AddContents")],
     CN, level="other", note=CTRUST, observe=["contents, border contents and content info of every node"])
prop("C12", "Winding numbers of BSP cells equal those of the mesh",
     "After closed meshes (of any orientation) are added to a BSP tree and it is split by any sequence of planes, in either "
     "order, the winding number reported for a leaf that has no facet of a mesh in its interior is the signed number of "
     "times that mesh surrounds the cell: zero outside, plus one inside a mesh with outward normals and minus one inside an "
     "inside-out one, independently for every content id.",
     ["inputs", "histories"], "all closed meshes and split sequences within the cells",
     "The count is carried from cell to cell through crossings at shared vertices and depends on ties in the direction order; a few "
     "wrong ties leave whole regions in or out.",
     ["include/walnut/bsp_node.h", "include/walnut/bsp_polygon.h", "src/walnut/r_transformation.cpp"],
     [("crossings", "BSPNode::GetPWNEffectAtVertex, PushContentPWNToChildren"), ("direction order", "RXYCompareBivector")],
     CN, level="other", note=CTRUST, observe=["BSPNode::GetContentInfoForId().pwn"])


prop("C14", "Partitioning a node by polygon extents equals splitting by that plane",
     "The event lists built for a BSP node describe its polygons: each polygon starts at its minimum and ends at its maximum "
     "coordinate, in order, ends before starts at equal places, with the equal places marked. Partitioning at any admissible "
     "event splits the node by the axis-aligned plane through that event: the children hold exactly the pieces an ordinary "
     "split by that plane gives, with the same boundary records, counts and winding numbers, polygons lying in the plane go to "
     "the border of the side they face, the predicted counts are the actual ones, and the event lists of the children for all "
     "three axes again describe their polygons, so that the children can be partitioned in the same way."
     " No assertion fails, and no memory is leaked or used after it ended.",
     ["inputs", "histories"], "all polygon sets, axes and places within the cells",
     "The partition reuses the sorted lists in place and merges cut polygons back in with a heap; every slip needs a "
     "particular pattern of equal coordinates and cut polygons.",
     ["include/walnut/polygon_event_point.h", "include/walnut/bsp_node.h"],
     [("events", "MakeEventPoints"), ("partition", "PolygonEventPointPartition::ApplyPrimary, ApplySecondary, DiscountBorderPolygons"),
      ("node", "BSPNode::Split(PolygonEventPointPartition, ...)")],
     CN, level="other", note=CTRUST, observe=["BSPNode::contents()", "PolygonEventPoint arrays"])

prop("C20", "Directions are ordered as after an infinitesimal R transformation",
     "Comparing two bivectors (plane normals) in the xy plane after the R transformation returns, for every sufficiently small "
     "positive epsilon, the sign of the cross product of the transformed vectors: zero exactly when one is zero or they are parallel, "
     "unchanged by positive multiples, negated when they are exchanged. Comparing with a side of a split plane uses the normal "
     "pointing away from that side. Transforming a point with inverse epsilon k gives (x, y, z + y/k + x/k^2) exactly.",
     ["inputs"], "all integer coordinates",
     "Only vectors that are parallel in one or more projections reach the later terms of the comparison.",
     ["include/walnut/r_transformation.h", "src/walnut/r_transformation.cpp"],
     [("comparison", "RXYCompareBivector"), ("transform", "RTransform")],
     VN, level="proof", observe=["RXYCompareBivector"])

prop("C13", "A boolean operation yields the boundary of the combined solid",
     "For closed meshes (general or axis-aligned position, nested, identical, touching, with common facet planes, inside out, "
     "several under one id) added to a BSPTree in any order, whether or not the tree was split before or after, and for every "
     "kd bound, traversing it with a CollectorVisitor yields polygons that surround each point, not on a facet, once where the "
     "filter's operation on the winding numbers of the inputs says inside and never where it says outside (an odd number of "
     "times for exclusive or and odd winding filters, which keep facet directions; minus one outside of an inverted solid). "
     "Every output polygon is convex with positive area, on the plane of an input facet with its id and direction, its edge "
     "lines join its vertices, and the node, edge, vertex and cut planes it records exist and contain it. Output polygons overlap "
     "only as the two sides of a wall between input solids that touch."
     " No assertion fails, and no memory is leaked or used after it ended.",
     ["inputs", "histories"], "all closed inputs, operations and trees within the cells",
     "Tests use a few axis-aligned cubes; which splits, borders and partitions happen depends on every coordinate and tie.",
     ["include/walnut/bsp_traverser.h", "include/walnut/plane_partitioner.h", "include/walnut/bsp_visitor.h",
      "include/walnut/bsp_node.h", "include/walnut/bsp_tree.h", "include/walnut/boolean_operation_filter.h"],
     [("traversal", "BSPTraverser::Run, RunLeaf, VisitLeaf"), ("facets of a plane", "PlanePartitioner::Run, ProcessLeaf"),
      ("collection", "CollectorVisitor::Accept"), ("operations", "UnionFilter, IntersectionFilter, SubtractionFilter, XORFilter, *IdsFilter")],
     CN, level="other", note=CTRUST, observe=["CollectorVisitor::TakePolygons"])

prop("C15", "Connected output joins every edge to the right neighbour",
     "For closed meshes as above, a ConnectingVisitor reports no error and yields facets that bound what the operation says. Every "
     "edge of every facet has a partner; the partner's partner is that edge; the two run between the same two points in opposite "
     "directions; the partner belongs to the first facet met when turning around the edge through the solid, also where more than "
     "two facets share the edge; each edge knows its facet. Facets that were merged are still convex, planar and on a plane of "
     "their id, and no facet with fewer than three vertices is left after filtering."
     " No assertion fails, and no memory is leaked or used after it ended.",
     ["inputs", "histories"], "all closed inputs, operations and trees within the cells",
     "Edges are sorted, split, matched and merged node by node while facets move in memory; a wrong partner shows only where "
     "facets of different cells meet along a line in a particular order.",
     ["include/walnut/connecting_visitor.h", "include/walnut/edge_line_connector.h", "include/walnut/connected_polygon.h",
      "include/walnut/deed.h", "include/walnut/bsp_traverser.h"],
     [("edges of a line", "EdgeLineConnector::ConnectEdgesInLine"), ("merging", "ConnectingVisitor::LeaveInteriorNode, TryMergePolygon"),
      ("partners", "ConnectedEdge")],
     CN, level="other", note=CTRUST, observe=["ConnectingVisitor::TakePolygons", "ConnectedEdge::partner"])

prop("C16", "A deed follows its object through every move, loan and return",
     "For every history of creating, copying, moving, assigning and destroying deed targets and creating, moving, assigning, "
     "swapping, lending, returning and destroying deeds (where the documented preconditions hold): a deed points to its object "
     "wherever the object was moved, becomes empty when the object ends, and ownership is never copied; a deed made of an "
     "owned object, or lent, makes the previous one a lender until it is returned or destroyed, when the lender has the object again "
     "wherever it is by then. A deed of no object is empty. Nothing touches an object that has ended.",
     ["histories"], "all histories of any number of deeds and targets, by transitions of all reachable shapes of four deeds and two targets",
     "A stale back pointer shows only after a later move of the other party; the orders of loans, moves and ends are unbounded.",
     ["include/walnut/deed.h"], [("deeds", "GenericDeed, Deed"), ("targets", "DeedTarget")],
     "exhaustive transition analysis: abstract interpretation of the compiled IR over pointers, against an ownership typestate model",
     level="proof", note="Every operation touches at most two deeds or two targets and what is linked to them, so all transitions are instances "
     "of the explored ones; trusts clang's front end and the analyser.", observe=["Deed::get", "GenericDeed::is_lender"])


prop("C17", "The border of a tree cell is the boundary of its part of the box",
     "For every tree, path of splits and bounding box (where every split on the path cuts the box, or holds one of its walls for "
     "GetNodeBorder): the facets of GetNodeBorder are simple convex polygons, on a wall or a split plane with the normal outward, that "
     "together surround exactly the points of the box on the node's side of every split (none, if there are none), every edge "
     "joined to the facet it meets, without an error being reported; GetNodeBorderNoBoundWalls gives, on each split plane, exactly the part that bounds "
     "the node within the box. IntersectPlane gives the section of the box by any plane (empty, if it has no area), and GetWalls its six sides."
     " No assertion fails, and no memory is leaked or used after it ended.",
     ["inputs"], "one sign cell at a time: every plane and box of the same signs as each generated instance, not all cells",
     "How a split plane crosses the walls and the earlier splits decides which code runs; tests fix a few cubes.",
     ["include/walnut/bsp_tree.h", "include/walnut/aabb.h"], [("border", "BSPTree::GetNodeBorder"), ("plane section", "AABB::IntersectPlane")],
     "abstract interpretation of the compiled IR over sign cells of symbolic polynomials, against exact membership of points",
     level="other", note="Generated trees of up to four splits; coordinates symbolic within each sign cell.",
     observe=["BSPTree::GetNodeBorder", "BSPTree::GetNodeBorderNoBoundWalls"])

prop("C26", "Facets built from a loop of points add up to the loop",
     "For every loop of points, planar or not, given as Point3 or as HomoPoint3 with denominators of either sign, with repeated "
     "points, points on straight stretches and edges folding back or crossing: ConvexPolygonFactory::Build returns; every polygon "
     "it emits has at least three vertices, all among the points of the loop, is convex, has a plane holding its vertices whose "
     "normal agrees with their order, and edge lines along its edges; and the boundaries of the emitted polygons, added as directed "
     "segments, are exactly the loop. The same factory gives the same guarantee for one loop after another. No assertion fails, and "
     "no memory is leaked or used after it ended.",
     ["inputs"], "one sign cell at a time: every loop of the same signs as each generated instance, not all cells",
     "Which points are level, repeated or collinear, and where the list of points starts, decides which code runs; tests fix a few dozen loops.",
     ["include/walnut/convex_polygon_factory.h", "include/walnut/planar_range.h", "include/walnut/monotone_range.h",
      "include/walnut/monotone_decomposer.h", "include/walnut/monotone_triangulator.h", "include/walnut/orienting_monotone_decomposer.h"],
     [("facets", "ConvexPolygonFactory::Build"), ("planes", "PlanarRange::Build"), ("monotone pieces", "MonotoneRange::Build")],
     "abstract interpretation of the compiled IR over sign cells of symbolic polynomials, against the sum of directed segments",
     level="other", note="Generated loops of up to 14 points; coordinates symbolic within each sign cell.",
     observe=["ConvexPolygonFactory::Emit"])

prop("C27", "Extruding a loop gives the closed boundary of its prism",
     "For every loop of points, direction and direction denominator of either sign: the convex polygons returned by Extrude that "
     "lie on the bottom add up to the loop, those on the top to the loop moved by direction / denominator and reversed, those "
     "on the side of each edge to the parallelogram (next, current, moved current, moved next), and all together to a closed "
     "surface; every one is convex, faces the way its vertices turn and has correct edge lines; a zero direction gives pieces that cancel.",
     ["inputs"], "one sign cell at a time: every loop and direction of the same signs as each generated instance, not all cells",
     "Signs of denominators, repeated points and facets that are not flat interact; tests extrude one triangle and one square.",
     ["src/walnut/extrude.cpp", "include/walnut/homo_point3.h"], [("extrusion", "Extrude"), ("moved points", "HomoPoint3::AddOffset")],
     "abstract interpretation of the compiled IR over sign cells of symbolic polynomials, against the sum of directed segments",
     level="other", note="Generated loops of up to 14 points; coordinates symbolic within each sign cell.",
     observe=["Extrude"])

prop("C28", "Mesh measures: top point, farthest point and centroid",
     "For every mesh: GetTopPoint is a vertex with the greatest z, then y, then x; GetFarthest is a vertex whose distance along the "
     "given direction is greatest, whatever the signs of the vertices' denominators; and for every closed mesh of non-zero volume, "
     "GetCentroid is exactly the centre of mass of the enclosed solid (as a rational function of the vertices, whatever their "
     "denominators, the order of the facets, where each starts, and whichever side they face).",
     ["inputs"], "one sign cell at a time; centroids as identities in the coordinates, for generated closed meshes and denominators",
     "Shared and negative denominators and least common multiples only matter in combination; tests use a few cubes and pyramids.",
     ["include/walnut/mesh.h", "include/walnut/homo_point3.h"], [("top", "GetTopPoint"), ("farthest", "GetFarthest"), ("centroid", "GetCentroid")],
     "abstract interpretation of the compiled IR over symbolic polynomials, against exact formulas",
     level="other", note="Five combinatorial types of solids and pairs of them; denominators up to 6 of either sign.",
     observe=["GetTopPoint", "GetFarthest", "GetCentroid"])


# ---- not claimed
prop("C18", "Multi-word division returns the truncated quotient and exact remainder",
     "For every dividend and nonzero divisor of any number of words, the quotient is truncated toward zero and "
     "quotient * divisor + remainder is the dividend, with the remainder smaller than the divisor and of the dividend's sign.",
     ["inputs"], "all pairs of values of two or more words", "The quotient digit correction is needed for about two in 2^64 digits.",
     ["include/walnut/big_int.h", "include/walnut/big_int_words.h"], [("division", "BigInt::DivideRemainder, BigUIntWords")], "", observe=["operator/", "operator%"],
     na="The quotient digit estimate is bounded by inequalities between products of machine words; the word domain's normal "
        "forms cannot express them, and handing the paths to a solver is another family. One-word division is in C07 where decidable.")
prop("C21", "Conversion from and to VTK data keeps every facet and its orientation",
     "Converting a VTK data set to a walnut mesh and back keeps every polygon, triangle strip and vertex position, with the orientation.",
     ["inputs"], "all data sets", "Cell types and strips combine; tests convert a few sources.",
     ["vtk_interface/include", "vtk_interface/src"], [("conversion", "VTKToWalnut, WalnutToVTK")], "", observe=["vtk conversions"],
     na="The containers and iterators are VTK's, linked as binaries: their source is not in the sandbox, so there is nothing to analyse behind the calls.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, *_ in P:
            f.write(json.dumps(d) + "\n")
    checks = []
    nas = []
    for d, tech, level, note, n in P:
        if n:
            nas.append({"property": d["id"], "reason": n})
            continue
        checks.append({"property": d["id"], "quick_cmd": "python3 engine/run.py " + d["id"],
                       "thorough_cmd": "env VERIF_TIER=thorough python3 engine/run.py " + d["id"],
                       "evidence_file": "evidence/%s.json" % d["id"],
                       "technique": tech, "level": level, "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 engine/build.py setup", "checks": checks, "not_applicable": nas,
         "notes": "All checks analyse /repo's current source on every run; none executes it. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(nas), "not applicable")


if __name__ == "__main__":
    main()
