import json
D="delynoi/src/"; H="delynoi/include/delynoi/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
NOASSERT="The repository's programs build a handful of fixed domains, print the result and assert nothing; "
p("P01","Voronoi cells partition the domain",
 "For every valid domain and seed set, the elements of the Voronoi mesh are simple, counter-clockwise polygons of positive area lying inside the domain, no two of which overlap, and together they cover exactly the domain minus its holes (areas add up, every interior point belongs to a cell, no point strictly inside a hole or outside the domain belongs to one).",
 ["inputs"],"All simple domain outlines (convex or not, either orientation, with collinear vertices), with any set of disjoint interior holes, and all seed sets inside the domain, including none, duplicates, grids, cocircular points and seeds on the boundary.",
 NOASSERT+"the partition must hold for every domain shape, hole layout and (degenerate) seed placement.",
 [D+"voronoi/DelaunayToVoronoi.cpp",D+"voronoi/TriangleVoronoiGenerator.cpp",D+"voronoi/TriangleDelaunayGenerator.cpp",H+"voronoi/lib/triangle.c"],
 [("walk around each vertex collecting circumcentres, closing boundary cells with edge midpoints and the site",D+"voronoi/DelaunayToVoronoi.cpp"),("conforming Delaunay input keeps circumcentres inside",D+"voronoi/TriangleDelaunayGenerator.cpp")],
 ["TriangleVoronoiGenerator::getMesh()"])
p("P02","Voronoi cells are nearest-generator regions",
 "The Voronoi mesh has exactly one cell per vertex used by its companion Delaunay triangulation, and that vertex (the cell's generator) lies in its own cell and in no other. Every seed inside the domain and every domain vertex is a generator. For every point of a cell, no generator visible from the point inside the domain is closer to it than the cell's own generator.",
 ["inputs"],"All valid domains with holes, all seed sets, all points of the domain.",
 NOASSERT+"the nearest-generator relation quantifies over every point of every diagram.",
 [D+"voronoi/DelaunayToVoronoi.cpp",D+"voronoi/TriangleVoronoiGenerator.cpp",D+"models/polygon/Triangle.cpp"],
 [("cells are built from circumcentres of the triangles around one generator",D+"voronoi/DelaunayToVoronoi.cpp"),("circumcentre computation",D+"models/polygon/Triangle.cpp")],
 ["TriangleVoronoiGenerator::getMesh()","TriangleVoronoiGenerator::getTriangulation()"])
p("P03","Mesh neighbourhood maps agree with the elements",
 "In every mesh the library generates, the segment map contains exactly the edges of the elements, each mapped to exactly the one or two elements that have that edge, with -1 standing for the missing neighbour. Edges with a single neighbour are exactly the edges lying on the outline or on a hole. The point map gives, for every vertex of an element, exactly the elements that use it, each once, and has no other entries.",
 ["inputs"],"Voronoi meshes, their companion triangulations, and constrained, segment-restricted and conforming triangulations, of all valid domains, holes and seeds.",
 NOASSERT+"no program inspects the maps; they are derived state that must agree with the elements for every mesh.",
 [D+"models/neighbourhood/SegmentMap.cpp",D+"models/neighbourhood/PointMap.cpp",D+"voronoi/DelaunayToVoronoi.cpp",H+"voronoi/TriangleDelaunayGenerator.h",H+"models/Mesh.h"],
 [("segment map filled per cell edge / per triangulation edge",D+"voronoi/DelaunayToVoronoi.cpp"),("unordered hash of index pairs",H+"voronoi/structures/mapdata.h"),("point map keyed by coordinates",D+"models/neighbourhood/PointMap.cpp")],
 ["Mesh::getSegments()","Mesh::getPointMap()","Mesh::getNeighbours()"])
p("P04","Constrained Delaunay triangulation is valid",
 "The constrained Delaunay triangulation consists of counter-clockwise, non-degenerate, non-overlapping triangles that cover exactly the domain minus its holes; its vertices are exactly the distinct domain and hole vertices and the distinct seeds lying in the domain. Every outline and hole segment is present as an edge or chain of edges. Every edge that is not part of a constraining segment is locally Delaunay.",
 ["inputs"],"All valid domains, disjoint holes and seed sets, including seeds on segments, duplicates and cocircular seeds.",
 NOASSERT+"AllTests, which calls triangulations, does not even run to completion at the base.",
 [D+"voronoi/TriangleDelaunayGenerator.cpp",H+"voronoi/TriangleDelaunayGenerator.h",H+"voronoi/lib/triangle.c"],
 [("input deduplication and index remapping into Triangle's arrays",D+"voronoi/TriangleDelaunayGenerator.cpp"),("flip-based constrained Delaunay, exact predicates",H+"voronoi/lib/triangle.c")],
 ["TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation()"])
p("P05","Restricted segments are honoured in the triangulation",
 "When a constrained triangulation is asked for with a list of restricted segments lying in the domain, every one of them appears in the result as an edge or a chain of mesh edges, whether or not its end points are seeds, whether or not it runs through seeds or along the boundary, and whether or not restricted segments cross, overlap, repeat or share points. The result still covers exactly the domain minus holes, contains all seeds, and every edge not on a restricted or boundary segment is locally Delaunay.",
 ["inputs"],"All valid domains with holes, seed sets, and finite lists of segments inside the domain (ends at seeds, at domain vertices, or elsewhere; disjoint, touching or crossing).",
 "No program of the repository passes restricted segments at all.",
 [D+"voronoi/TriangleDelaunayGenerator.cpp",D+"models/basic/PointSegment.cpp",H+"voronoi/lib/triangle.c"],
 [("end points are looked up in the point list and appended to Triangle's segment list",D+"voronoi/TriangleDelaunayGenerator.cpp")],
 ["TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation(restrictedSegments)"])
p("P06","Conforming Delaunay triangulation is truly Delaunay",
 "The conforming Delaunay triangulation covers exactly the domain minus its holes with counter-clockwise, non-overlapping triangles, and contains all domain vertices, hole vertices and seeds. Every triangle is Delaunay: each interior edge is locally Delaunay, and each boundary edge has no triangle apex strictly inside its diametral circle, so every circumcentre lies in the domain. Points added by the library lie on the outline or hole segments only.",
 ["inputs"],"All valid domains, disjoint holes and seed sets (including seeds close to or on the boundary).",
 NOASSERT+"the only caller (AllTests) crashes at the base.",
 [D+"voronoi/TriangleDelaunayGenerator.cpp",H+"voronoi/lib/triangle.c"],
 [("Triangle's -D segment splitting",H+"voronoi/lib/triangle.c"),("result conversion to a mesh",H+"voronoi/TriangleDelaunayGenerator.h")],
 ["TriangleDelaunayGenerator::getConformingDelaunayTriangulation()","TriangleVoronoiGenerator::getTriangulation()"])
p("P07","Boundary flags mark exactly the boundary points",
 "In every generated mesh (Voronoi, companion, constrained and conforming triangulations) a point used by an element is flagged as a boundary point if and only if it lies on the domain outline or on the outline of a hole.",
 ["inputs"],"All valid domains with holes and all seed sets, including seeds on the boundary and triangulations with right angles facing the boundary.",
 NOASSERT+"no program reads the flag.",
 [D+"voronoi/TriangleDelaunayGenerator.cpp",D+"voronoi/DelaunayToVoronoi.cpp",D+"models/basic/Point.cpp"],
 [("Triangle's point markers",D+"voronoi/TriangleDelaunayGenerator.cpp"),("midpoints and sites flagged when closing boundary cells",D+"voronoi/DelaunayToVoronoi.cpp")],
 ["Point::isInBoundary() of Mesh::getPoints()"])
p("P08","Adding holes subtracts exactly their shape",
 "After any sequence of holes is added to a region, the region's outline minus its listed interior holes equals the original outline minus the union of the added holes, up to the clipping resolution (corners no hole comes near stay where they were, to half a unit of it, however many holes follow): interior holes are listed unchanged (those that overlap one another as a single hole of their joint shape), holes crossing the outline are cut out of it together with the interior holes they overlap, and holes outside change nothing. A hole that, alone or joined with holes it overlaps, would cover the region or split it into several pieces is rejected with an exception that leaves the region unchanged. Meshes of the region then cover exactly that shape.",
 ["inputs","histories"],"All simple regions, and all sequences of polygonal (convex or not) and circular holes, overlapping, nested or apart (but not merely touching): interior, crossing, outside, splitting or covering; with or without resetting the interior holes; any clipping scale.",
 NOASSERT+"two of them add one or a few circular holes and print the result.",
 [D+"models/Region.cpp",D+"models/hole/PolygonalHole.cpp",D+"models/hole/CircularHole.cpp",H+"models/hole/Hole.h",D+"models/hole/clipper/lib/clipper.cpp"],
 [("Clipper difference decides interior / crossing",D+"models/Region.cpp"),("hole interior point handed to Triangle for carving",D+"models/hole/PolygonalHole.cpp")],
 ["Region::addHole()","Region::getRegionPoints()","Region::getHoles()","meshes of the region"],
 [("p","outline vertices","Region"),("holes","interior holes","Region")])
p("P09","Seed list histories keep exactly the in-domain seeds",
 "A region's seed list behaves, over any sequence of additions (point lists, generator grids, files), hole insertions, clears and copies, as the in-order list of all added points with, at every addition, the points not in the closed domain or lying in a hole removed. Nothing else is dropped, reordered, duplicated or changed; copies of a region carry their own equal, independent list.",
 ["histories"],"All interleavings of adding seeds from lists, grid generators and files, adding holes, clearing seeds, and copying regions.",
 "The programs call at most one seeding operation and never look at the list.",
 [D+"models/Region.cpp",H+"models/Region.h",D+"models/generator/PointGenerator.cpp"],
 [("every addition is followed by a filter against the outline and the holes",D+"models/Region.cpp")],
 ["Region::getSeedPoints()"],[("seedPoints","current seeds","Region")])
p("P10","Point generators produce the documented grid of points",
 "Generating with nX by nY points appends exactly nX*nY finite points, row by row from the lower left corner of the bounding box to the upper right, evenly spaced (a single row or column sits at the lower bound), with each coordinate transformed by the chosen rules: identity, scaling, sine, cosine, displacement of every other point by half the given amount, alternating rows shifted by half the spacing, random values within their interval, or one rule displacing the dependent coordinate. Noise changes each coordinate by no more than its bounds, in absolute value at least its minimum, and existing contents of the output list are kept. A generator, or a copy of it, used again (also with another box or another number of points) gives what a fresh one would.",
 ["inputs","histories"],"All bounding boxes, all nX, nY >= 1, all rules and noises with all parameters, repeated calls.",
 "The programs use a few square grids and assert nothing.",
 [D+"models/generator/PointGenerator.cpp",D+"models/generator/functions/FunctorClasses.cpp",D+"models/generator/functions/functions.cpp",D+"models/generator/noise/noise.cpp",D+"models/generator/noise/RandomDoubleNoise.cpp",D+"models/generator/noise/RandomIntegerNoise.cpp",D+"models/polygon/BoundingBox.cpp"],
 [("grid loop and rule application",D+"models/generator/PointGenerator.cpp"),("rule functors",D+"models/generator/functions/FunctorClasses.cpp")],
 ["PointGenerator::generate()","Functor::apply()"])
p("P11","Point location is exact inside, outside and on the border",
 "For polygons, regions, holes and bounding boxes, a point is reported as contained exactly when it lies in the closed shape, and as being on the edges exactly when it lies on an edge (within the configured tolerance); the container edge returned is an edge of the shape that really contains the point, or the (-1,-1) marker when none does. The answer does not depend on orientation or starting vertex.",
 ["inputs"],"All simple polygons (any orientation, starting vertex, non-convex, with horizontal edges and collinear vertices), all query points (interior, exterior, level with vertices, on edges, on vertices).",
 NOASSERT+"point location is only exercised indirectly on squares.",
 [D+"models/polygon/Polygon.cpp",H+"models/hole/Hole.h",D+"models/Region.cpp",D+"models/basic/Segment.cpp",D+"models/polygon/BoundingBox.cpp"],
 [("even-odd ray casting plus edge test",D+"models/polygon/Polygon.cpp")],
 ["Polygon::containsPoint/inEdges/containerEdge","Region::containsPoint/inEdges","Hole::containsPoint","BoundingBox::contains"])
p("P12","Polygon metrics match their mathematical definitions",
 "For every simple polygon, area, signed area, centroid, diameter, maximum vertex distance, vertex average, convexity, orientation, edge membership and self-intersection answers equal their mathematical definition: signed area is positive exactly when counter-clockwise, diameter and maximum distance are the largest distance between two vertices, convexity means no reflex vertex. They do not depend on starting vertex, on the order of queries or on intermediate copies, and they stay right after orientation fixes and after the polygon is given new points. A polygon equals its copies and re-listings of the same vertices, and differs from every polygon with other vertices.",
 ["inputs","histories"],"All simple polygons (plus self-intersecting ones for the self-intersection test), all orders of metric queries, copies, orientation fixes and point changes.",
 "No program computes a metric; the cached values make the answer depend on call history.",
 [D+"models/polygon/Polygon.cpp",D+"utilities/geometryFunctions.cpp",D+"utilities/convexHull.cpp",D+"models/polygon/Triangle.cpp"],
 [("lazy caches of area, diameter and centroid",D+"models/polygon/Polygon.cpp"),("rotating calipers",D+"utilities/convexHull.cpp")],
 ["Polygon public metrics"],[("area, diameter, centroid","lazily cached metrics","Polygon")])
p("P13","Segment and point primitives are geometrically right",
 "For all points and segments: length, midpoint, direction angle in degrees, containment of a point or segment, orientation tests, and collinearity agree with exact geometry up to the configured tolerance. Two non-parallel segments are reported as intersecting exactly when they share a point, and the reported intersection point lies on both; the infinite-line variant tests the first segment against the second one's line. Segment equality and hashing ignore direction, and point equality is closeness of both coordinates within the tolerance.",
 ["inputs"],"All point and segment configurations: crossing, touching at ends, T-shaped, near misses, collinear points, vertical and horizontal segments, any translation.",
 "No program exercises the primitives directly.",
 [D+"models/basic/Segment.cpp",D+"models/basic/IndexSegment.cpp",D+"models/basic/PointSegment.cpp",D+"models/basic/Point.cpp",D+"utilities/geometryFunctions.cpp",D+"utilities/delynoi_utilities.cpp",H+"models/basic/Angle.h"],
 [("parametric intersection",D+"models/basic/Segment.cpp"),("tolerant comparisons",D+"models/basic/Point.cpp")],
 ["IndexSegment, PointSegment, Point, geometry_functions, delynoi_utilities public functions"])
p("P14","Files written describe the mesh or region faithfully",
 "A mesh file lists all mesh points, then all edges of the segment map, then all elements as side count followed by vertex indices, each section preceded by its count; a region file lists region and hole points followed by seeds, then the outline and hole segments; the neighbourhood maps print every entry; and the input file for the stand-alone Triangle program lists the numbered points, the numbered outline and hole segments between them, and one point inside each hole. Every coordinate is within half a unit of the last decimal of the configured output precision of the real one, every index is written in full, and files go to the user's home directory, replacing earlier contents.",
 ["inputs","configurations"],"All generated meshes and regions with holes and seeds, all output precisions, small and large coordinates and indices.",
 "The programs write files but never read or compare them.",
 [H+"models/Mesh.h",D+"models/Region.cpp",D+"models/basic/Point.cpp",D+"models/basic/IndexSegment.cpp",D+"models/polygon/Polygon.cpp",D+"models/neighbourhood/SegmentMap.cpp",D+"models/neighbourhood/PointMap.cpp",D+"config/DelynoiConfig.cpp"],
 [("print functions and number formatting",H+"models/Mesh.h")],
 ["contents of files written by printInFile"])
p("P15","Meshes read from files are what the file says",
 "Reading a mesh file gives a mesh whose points, elements and edge neighbourhoods are exactly those described, for zero- and one-based indices, also when the file repeats a point; a mesh that the library printed reads back with the same points, elements and neighbourhood maps.",
 ["inputs"],"All mesh files with points, optional edge section as the library prints it, and polygons of any size; repeated points; both index bases; all generated meshes printed and read back.",
 "The one program that reads a mesh file does not compile at the base.",
 [H+"models/Mesh.h","lib/utilities/src/utilities.cpp"],
 [("line-based reader filling points, elements and the maps",H+"models/Mesh.h")],
 ["Mesh::createFromFile()","Mesh::createFromStream()"])
p("P16","The unique list behaves as an insertion-ordered set",
 "Over any sequence of operations, the unique list behaves as an insertion-ordered sequence without equivalent elements: adding returns the index of the stored equivalent element (a new last index if there was none), and size, element access, lookup, membership, common-element tests, equality, copies, clearing, removal from the front and removal by value all agree with that model. A forced append stores its element at the end even if it is there already, lookups keep finding the first one, and removals take the first one.",
 ["histories"],"All operation sequences over integers and points (points within tolerance count as equivalent), including removals followed by additions and copies.",
 "It is only exercised through mesh generation, never with removals.",
 ["lib/utilities/include/utilities/UniqueList.h"],
 [("list for order plus map from value to index",'lib/utilities/include/utilities/UniqueList.h')],
 ["UniqueList public operations"],[("list","insertion order","UniqueList"),("map","value to index","UniqueList")])
p("P17","Polygon triangulators partition the polygon",
 "Triangulating a simple polygon by ears or by Delaunay yields exactly n-2 triangles (Delaunay: for polygons without collinear vertices) and, for a convex one from its centre, n triangles; in all three the triangles refer by index to the caller's point list, use only the polygon's vertices (plus the appended centre, the vertex average), do not overlap, and cover exactly the polygon; ear and Delaunay triangles are listed counter-clockwise, centre ones the way the polygon is. The polygon and the other points of the list are left unchanged.",
 ["inputs"],"All simple polygons, convex or not, of either orientation, given by arbitrary indices into a list that also holds unrelated points.",
 "No program uses the triangulators.",
 [D+"triangulation/EarTriangulationGenerator.cpp",D+"triangulation/CenterTriangulationGenerator.cpp",D+"triangulation/DelaunayTriangulationGenerator.cpp"],
 [("ear clipping / fan from the average / constrained Delaunay",D+"triangulation/EarTriangulationGenerator.cpp")],
 ["TriangulationGenerator::triangulate()"])
p("P18","Meshing is invariant under irrelevant input changes",
 "As geometric figures, the Voronoi cells (whenever no boundary point had to be inserted) and the constrained Delaunay triangles (whenever no four vertices are cocircular) do not change when seeds are reordered or repeated, when the outline or a hole starts at another vertex or is listed in the opposite direction, when holes are added in another order, and when seeds outside the domain are added; and they move along with the domain under translation, uniform scaling, reflection and quarter turns. Seed order never changes which area is meshed.",
 ["inputs"],"All valid domains with holes and seed sets of the stated kinds, all permutations, duplications and the listed transformations.",
 "The programs run each input once, in one order and position.",
 [D+"voronoi/TriangleDelaunayGenerator.cpp",D+"voronoi/DelaunayToVoronoi.cpp",D+"models/Region.cpp"],
 [("deduplication of input points; exact predicates in Triangle",D+"voronoi/TriangleDelaunayGenerator.cpp")],
 ["TriangleVoronoiGenerator::getMesh()","TriangleDelaunayGenerator::getConformingDelaunayTriangulation()"])
p("P19","Segment and point maps behave as keyed containers",
 "Over any sequence of operations, the segment map behaves as a map keyed by undirected index pairs: the first element inserted for an edge is its first neighbour, a later one its second, explicit pairs replace, and membership, size and iteration agree; looking up an absent edge through a mesh reports no neighbours and changes nothing. A mesh assembled from points, elements and maps, and every copy of it, has exactly those. The point map behaves as a map keyed by position (within tolerance) to the list of inserted elements in order.",
 ["histories"],"All operation sequences over small and large indices, including many edges, reversed edges and hash-colliding pairs.",
 "Only exercised through mesh generation; nothing reads the maps back.",
 [D+"models/neighbourhood/SegmentMap.cpp",D+"models/neighbourhood/PointMap.cpp",D+"models/neighbourhood/NeighboursBySegment.cpp",D+"models/neighbourhood/NeighboursByPoint.cpp",D+"models/basic/IndexSegment.cpp",H+"models/Mesh.h"],
 [("hash map with symmetric hash and equality",H+"voronoi/structures/mapdata.h")],
 ["SegmentMap, PointMap, NeighboursBySegment, NeighboursByPoint, Mesh::getNeighbours()"])
p("P20","Mesh generation is repeatable and free of hidden state",
 "Each triangulation or diagram asked for depends only on the region, seeds and restricted segments given: asking one generator several times, for different kinds in any order, gives the same meshes as asking fresh generators, earlier results stay unchanged, the caller's region and seed list are not modified, and later changes to them do not affect a generator already made.",
 ["histories"],"All sequences of constrained, restricted, conforming and Voronoi requests on one or several live generators over all valid domains and seeds.",
 "Every program uses each generator once.",
 [D+"voronoi/TriangleDelaunayGenerator.cpp",H+"voronoi/TriangleDelaunayGenerator.h",D+"voronoi/TriangleVoronoiGenerator.cpp",H+"models/Mesh.h"],
 [("generator-owned copies of region and seeds; result members filled by the Triangle call",D+"voronoi/TriangleDelaunayGenerator.cpp")],
 ["TriangleDelaunayGenerator and TriangleVoronoiGenerator results over call histories"],[("empty, meshPoints, triangles, delaunayEdges","results kept between requests","TriangleDelaunayGenerator")])
p("P21","Invalid input is rejected with an exception",
 "Self-intersecting point lists given to a region, polygon or polygonal hole, a centre triangulation of a non-convex polygon, a one-rule point generator with both variables free, triangles without three distinct vertices, missing files, and seed or mesh files that are truncated or malformed (missing or non-numeric fields, counts larger than the content, indices out of range) raise a C++ exception: never a crash, an endless loop, or silently invented data. Valid input never raises.",
 ["inputs"],"All self-intersecting and all simple outlines; all byte-level corruptions of seed and mesh files; the other listed misuse.",
 "No program passes invalid input.",
 [D+"models/polygon/Polygon.cpp",D+"models/Region.cpp",H+"models/Mesh.h",D+"triangulation/CenterTriangulationGenerator.cpp",D+"models/generator/PointGenerator.cpp",D+"utilities/delynoi_utilities.cpp","lib/utilities/src/utilities.cpp"],
 [("std::invalid_argument / std::runtime_error thrown on bad input",D+"models/polygon/Polygon.cpp")],
 ["exceptions thrown by constructors, Region::addSeedsFromFile, Mesh::createFromFile, triangulate, checkTriangleIntegrity"])
p("P22","Circles and arcs are discretised on the circle",
 "A circle (and circular hole) is approximated by exactly as many points as the configured discretisation grade, all on the circle, starting at angle 0 and evenly spaced counter-clockwise; an arc is approximated by grade+1 evenly spaced points from its initial to its final angle inclusive. A circular hole's segments close the outline and its centre is the circle's centre.",
 ["inputs","configurations"],"All centres, radii, arc angles (increasing or decreasing) and discretisation grades >= 3.",
 "The programs use the default grade of 12 only, which divides 360.",
 [D+"models/polygon/Circle.cpp",D+"models/hole/CircularHole.cpp",D+"utilities/delynoi_utilities.cpp",D+"config/DelynoiConfig.cpp"],
 [("angle stepping",D+"models/polygon/Circle.cpp")],
 ["Circle::discretizeCircle()","CircularHole::getPoints()","delynoi_utilities::generateArcPoints()"])
p("P23","Configuration is process-wide and takes effect at once",
 "Every configuration parameter starts at its default (grade 12, tolerance 1e-5, scale 100000, precision 6), reads back as last set, and setting one leaves the others alone; the change takes effect on the next operation and only on it: the tolerance decides point equality and collinearity, the scale the resolution of hole clipping, the grade the number of circle points, the precision the decimals in files. Objects built before a change keep their geometry.",
 ["histories","configurations"],"All sequences of parameter changes interleaved with the operations that depend on them.",
 "No program changes the configuration.",
 [D+"config/DelynoiConfig.cpp",H+"config/DelynoiConfig.h",D+"models/basic/Point.cpp",D+"models/Region.cpp",D+"models/polygon/Circle.cpp"],
 [("singleton read at each use",D+"config/DelynoiConfig.cpp")],
 ["DelynoiConfig getters; Point::operator==; Circle; Region::addHole; printed files"],[("DelynoiConfig singleton","global parameters","DelynoiConfig")])
p("P24","Hulls, calipers, triangles and circumcentres are right",
 "For every point set, the upper and lower hull chains are exactly the convex hull vertices in order and the antipodal pairs include the farthest pair. For every non-degenerate triangle the circumcentre is equidistant from its three vertices, is registered once in the shared circumcentre list with the index the triangle reports, and walking from an edge around a vertex reaches the triangle's third vertex.",
 ["inputs"],"All finite point sets of at least three points not all on one line, with collinear runs and duplicated x-coordinates; all non-degenerate triangles in any vertex order.",
 "No program calls them directly.",
 [D+"utilities/convexHull.cpp",D+"models/polygon/Triangle.cpp",D+"models/neighbourhood/EdgeData.cpp"],
 [("monotone chain and rotating calipers",D+"utilities/convexHull.cpp"),("closed-form circumcentre",D+"models/polygon/Triangle.cpp")],
 ["convex::convexHull","convex::rotatingCalipers","Triangle public functions"])
p("P25","Utility functions satisfy their algebraic contracts",
 "Splitting a line by whitespace returns exactly its non-empty fields in order; numbers are printed with the requested decimals; integer formatting round-trips; index lookup returns the first position or -1; sign, angle conversion between degrees and radians, vector normalisation, pair arithmetic, comparison and dot product, integer hashing, index vectors, bounded random integers and bounding box extents satisfy their definitions.",
 ["inputs"],"All strings, numbers, vectors and pairs in the accepted domains.",
 "Only exercised incidentally by the programs, without assertions.",
 ["lib/utilities/src/utilities.cpp","lib/utilities/include/utilities/utilities.h","lib/utilities/include/utilities/Pair.h",D+"utilities/delynoi_utilities.cpp",D+"models/polygon/BoundingBox.cpp"],
 [("free functions",'lib/utilities/src/utilities.cpp')],
 ["utilities::, delynoi_utilities::, Pair, BoundingBox"])
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for q in P: jsonschema.validate(q,s)
print(len(P))
