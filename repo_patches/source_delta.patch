From b4a8e2c6362943537926a94560661213e8aebc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 01/40] fix: Point::isValid answered the opposite, so centroids
 (and hole centres) were never computed

---
 delynoi/src/models/basic/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 6b14fe4..0bea35e 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -14,7 +14,7 @@ Point::Point() {
 }
 
 bool Point::isValid() {
-    return this->isEmpty;
+    return !this->isEmpty;
 }
 
 double Point::getX() const{
-- 
2.43.0


From 57f42b02197763e97293315b2461f1ec820f8baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 02/40] fix: getConformingDelaunayTriangulation returned a
 reference to a local mesh

---
 delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h | 2 +-
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp           | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index ab53d6c..6dd44f9 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -62,7 +62,7 @@ public:
      * segments, are Delaunay through the inclusion of additional points)
      * @return the conforming Delaunay triangulation
      */
-    Mesh<Triangle>& getConformingDelaunayTriangulation();
+    Mesh<Triangle> getConformingDelaunayTriangulation();
 
     /* Returns the constrained Delaunay triangulation (triangles next to constrained segments are not necessarily
      * delaunay)
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 4352961..f24e3c0 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -141,14 +141,13 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     free(out.edgemarkerlist);
 }
 
-Mesh<Triangle>& TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
+Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
     if(!this->empty){
         char switches[] = "pzejDQ";
         callTriangle(seedPoints, switches);
     }
 
-    Mesh<Triangle> mesh = initializeMesh<Triangle>();
-    return mesh;
+    return initializeMesh<Triangle>();
 }
 
 void
-- 
2.43.0


From d33f8baa7936cfd26a571419551c99c924596a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 03/40] fix: copying a Region lost its seed points

---
 delynoi/src/models/Region.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index b10a28e..d2d6e33 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -25,6 +25,7 @@ Region::Region(const Polygon &other, std::vector<Point>& points) : Polygon() {
 Region::Region(const Region &other) : Polygon(other){
     this->p = other.p;
     this->holes.assign(other.holes.begin(), other.holes.end());
+    this->seedPoints = other.seedPoints;
 }
 
 std::vector<Hole>& Region::getHoles() {
-- 
2.43.0


From e607f4fc5a7565981e5d3ab37f98dde7f2e6d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 04/40] fix: random_integer_noise was defined with other
 parameter types than declared, so it could not be linked

---
 delynoi/src/models/generator/noise/noise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/generator/noise/noise.cpp b/delynoi/src/models/generator/noise/noise.cpp
index ecdcb56..72623fd 100644
--- a/delynoi/src/models/generator/noise/noise.cpp
+++ b/delynoi/src/models/generator/noise/noise.cpp
@@ -7,7 +7,7 @@ namespace noise{
         return new RandomDoubleNoise(f, min, max);
     }
 
-    Functor* random_integer_noise(Functor* f, int min, int max){
+    Functor* random_integer_noise(Functor* f, double min, double max){
         return new RandomIntegerNoise(f, min, max);
     }
 }
-- 
2.43.0


From 84461cd0074defcbe236a0e8b77443ebafab3686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 05/40] fix: collinear for segments was defined with other
 parameter types than declared, so it could not be linked

---
 delynoi/src/utilities/geometryFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/utilities/geometryFunctions.cpp b/delynoi/src/utilities/geometryFunctions.cpp
index 8693474..817ca6f 100644
--- a/delynoi/src/utilities/geometryFunctions.cpp
+++ b/delynoi/src/utilities/geometryFunctions.cpp
@@ -17,7 +17,7 @@ namespace geometry_functions{
         return std::abs(area2(p1,p2,p3))<config->getTolerance();
     }
 
-    bool collinear(PointSegment seg1, PointSegment seg2){
+    bool collinear(PointSegment& seg1, PointSegment& seg2){
         return collinear(seg1.getFirst(), seg1.getSecond(), seg2.getFirst()) &&
                 collinear(seg1.getFirst(), seg1.getSecond(), seg2.getSecond());
     }
-- 
2.43.0


From 952ab50d842ab0211382685b9cc96a8d3b442b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 06/40] fix: PointGenerator produced NaN coordinates for a
 single row or column

---
 delynoi/src/models/generator/PointGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/generator/PointGenerator.cpp b/delynoi/src/models/generator/PointGenerator.cpp
index 1ec7cc2..765084f 100644
--- a/delynoi/src/models/generator/PointGenerator.cpp
+++ b/delynoi/src/models/generator/PointGenerator.cpp
@@ -25,8 +25,8 @@ PointGenerator::PointGenerator(Functor *l, functions::independent_variable varia
 }
 
 void PointGenerator::generate(std::vector <Point> &vector, BoundingBox box, int nX, int nY) {
-    double dX = box.getWidth()/(nX-1);
-    double dY = box.getHeight()/(nY-1);
+    double dX = nX>1? box.getWidth()/(nX-1) : 0;
+    double dY = nY>1? box.getHeight()/(nY-1) : 0;
 
     for(int i = 0; i<nY; i++){
         for(int j = 0; j<nX; j++){
-- 
2.43.0


From ce75b40d6b5b6aea19b97aa90033f93168049c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 07/40] fix: Region::addSeedPoints replaced the seeds already
 in the list

---
 delynoi/src/models/Region.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index d2d6e33..60ded86 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -91,7 +91,7 @@ void Region::generateSeedPoints(PointGenerator p, int nX, int nY){
 }
 
 void Region::addSeedPoints(std::vector<Point>& seeds) {
-    this->seedPoints.assign(seeds.begin(), seeds.end());
+    this->seedPoints.insert(this->seedPoints.end(), seeds.begin(), seeds.end());
     this->clean();
 }
 
-- 
2.43.0


From 6ac52458266f37fd144718dcbe4c64c3bdf2f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 08/40] fix: points were printed with six significant digits
 instead of the configured precision

---
 delynoi/src/models/basic/Point.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 0bea35e..a26c4a9 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -26,7 +26,9 @@ double Point::getY() const{
 }
 
 std::string Point::getString() const{
-    return utilities::toString<double>(this->getX()) + " " + utilities::toString<double>(this->getY());
+    int precision = DelynoiConfig::instance()->getPrecision();
+    return utilities::toStringWithPrecision(this->getX(), precision) + " " +
+           utilities::toStringWithPrecision(this->getY(), precision);
 }
 
 double Point::squareNorm() {
-- 
2.43.0


From a0b8704e789e6c5abea09ce8f33c87ef2f50d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 09/40] fix: indices above 999999 were printed in scientific
 notation with lost digits

---
 delynoi/src/models/basic/IndexSegment.cpp                | 2 +-
 delynoi/src/models/neighbourhood/EdgeData.cpp            | 2 +-
 delynoi/src/models/neighbourhood/NeighboursBySegment.cpp | 2 +-
 delynoi/src/models/polygon/Polygon.cpp                   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/basic/IndexSegment.cpp b/delynoi/src/models/basic/IndexSegment.cpp
index dfbadcd..d2cd37f 100644
--- a/delynoi/src/models/basic/IndexSegment.cpp
+++ b/delynoi/src/models/basic/IndexSegment.cpp
@@ -53,7 +53,7 @@ bool IndexSegment::isCCW(const std::vector<Point>& points, Point center) {
 }
 
 std::string IndexSegment::getString() const {
-    return utilities::toString<double>(this->getFirst()) + " " + utilities::toString<double>(this->getSecond());
+    return utilities::toString<int>(this->getFirst()) + " " + utilities::toString<int>(this->getSecond());
 }
 
 bool IndexSegment::operator==(const IndexSegment& other) const {
diff --git a/delynoi/src/models/neighbourhood/EdgeData.cpp b/delynoi/src/models/neighbourhood/EdgeData.cpp
index a52a3f3..45a86a9 100644
--- a/delynoi/src/models/neighbourhood/EdgeData.cpp
+++ b/delynoi/src/models/neighbourhood/EdgeData.cpp
@@ -17,7 +17,7 @@ void EdgeData::setTriangle(int t) {
 }
 
 std::string EdgeData::getString() {
-    return utilities::toString<double>(this->p1) + " " + utilities::toString<double>(this->p2);
+    return utilities::toString<int>(this->p1) + " " + utilities::toString<int>(this->p2);
 }
 
 bool EdgeData::operator==(const EdgeData &other) const {
diff --git a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
index b9ada00..dcd4275 100644
--- a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
+++ b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
@@ -29,7 +29,7 @@ int NeighboursBySegment::getSecond() const{
 }
 
 std::string NeighboursBySegment::getString() const {
-    return utilities::toString<double>(this->n1) + " " + utilities::toString<double>(this->n2);
+    return utilities::toString<int>(this->n1) + " " + utilities::toString<int>(this->n2);
 }
 
 bool NeighboursBySegment::operator==(const NeighboursBySegment &other) const{
diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 5e8e16d..b342b97 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -244,10 +244,10 @@ bool Polygon::operator==(const Polygon &other) const{
 }
 
 std::string Polygon::getString() {
-    std::string base = utilities::toString<double>(this->points.size());
+    std::string base = utilities::toString<int>(this->points.size());
 
     for(int i=0;i<this->points.size();i++){
-        base += " " + utilities::toString<double>(this->points[i]);
+        base += " " + utilities::toString<int>(this->points[i]);
     }
 
     return base;
-- 
2.43.0


From fe398824e079da4a1136e3e40e3d046061b0f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 10/40] fix: circles were not discretised in exactly the
 configured number of points when it does not divide 360

---
 delynoi/src/models/polygon/Circle.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/polygon/Circle.cpp b/delynoi/src/models/polygon/Circle.cpp
index b4ba79f..9484d56 100644
--- a/delynoi/src/models/polygon/Circle.cpp
+++ b/delynoi/src/models/polygon/Circle.cpp
@@ -11,16 +11,14 @@ std::vector<Point> Circle::discretizeCircle() {
     DelynoiConfig* config = DelynoiConfig::instance();
 
     std::vector<Point> points;
-    double delta = 360 / config->getDiscretizationGrade();
+    int grade = config->getDiscretizationGrade();
 
-    double angle = 0;
-    while (angle < 360) {
+    for (int i = 0; i < grade; ++i) {
+        double angle = 360.0 * i / grade;
         double x = center.getX() + radius * cos(utilities::radian(angle));
         double y = center.getY() + radius * sin(utilities::radian(angle));
 
         points.push_back(Point(x, y));
-
-        angle += delta;
     }
 
     return points;
-- 
2.43.0


From 5bb4dfd48cada34bbcf4c446de15d04579a3fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 11/40] fix: Angle gave values below 0 for negative angles

---
 delynoi/include/delynoi/models/basic/Angle.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/delynoi/include/delynoi/models/basic/Angle.h b/delynoi/include/delynoi/models/basic/Angle.h
index 4ce110f..3acfd0d 100644
--- a/delynoi/include/delynoi/models/basic/Angle.h
+++ b/delynoi/include/delynoi/models/basic/Angle.h
@@ -17,12 +17,7 @@ struct Angle{
      * Constructor. Takes an angle value and obtains the equivalent between 0 and 180.
      */
     Angle(double a){
-        a = a - 360.0*int(a/360);
-        if(a>=0 && a<180) {
-            angle = a;
-        }else{
-            angle = a - 180;
-        }
+        angle = a - 180.0*std::floor(a/180);
     }
 
     /*
-- 
2.43.0


From 50512a0549ec8c393d496ad29ae3257ef8e63bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 12/40] fix: a TriangleDelaunayGenerator returned its first
 result whatever triangulation it was asked for next

---
 .../voronoi/TriangleDelaunayGenerator.h       |  6 ++-
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 40 ++++++++++---------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index 6dd44f9..02d6677 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -38,7 +38,11 @@ private:
     std::vector<EdgeData> edges;
     UniqueList<Point> circumcenters;
     std::unordered_map<Key, int, KeyHasher> edgeMap;
-    bool empty = false;
+
+    /*
+     * Forgets the result of the last call to the Triangle library
+     */
+    void reset();
 
     /* Calls the Triangle library, filling the class members with the result
      * @param point_list points which Delaunay triangulation must be computed
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index f24e3c0..049bca1 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -6,15 +6,27 @@ TriangleDelaunayGenerator::TriangleDelaunayGenerator(const std::vector<Point>& p
     this->delaunayEdges = new SegmentMap;
 }
 
+void TriangleDelaunayGenerator::reset() {
+    this->triangles.clear();
+    this->meshPoints.clear();
+    this->points.clear();
+    this->realPoints.clear();
+    this->edges.clear();
+    this->circumcenters.clear();
+    this->edgeMap.clear();
+
+    //Meshes already returned keep the previous map
+    this->delaunayEdges = new SegmentMap;
+}
+
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches) {
-    this->empty = true;
     this->callTriangle(point_list, switches, std::vector<PointSegment>());
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches,
                                              std::vector<PointSegment> restrictedSegments) {
 
-    this->empty = true;
+    this->reset();
     struct triangulateio in, out;
 
     std::vector<Point> regionPoints = region.getRegionPoints();
@@ -142,10 +154,8 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
@@ -183,29 +193,23 @@ TriangleDelaunayGenerator::writeTriangleInputFile(UniqueList<Point> &point_list,
 }
 
 DelaunayInfo TriangleDelaunayGenerator::getConformingDelaunay() {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return DelaunayInfo(triangles, meshPoints, delaunayEdges, points, realPoints, edges, edgeMap, circumcenters);
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation() {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
 
 Mesh<Triangle>
 TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation(std::vector<PointSegment> restrictedSegments) {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches, restrictedSegments);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches, restrictedSegments);
 
     return initializeMesh<Triangle>();
 }
-- 
2.43.0


From 6f4770f281b83e6104ca3938b166b1d341487ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 13/40] fix: restricted segments whose end points are not seeds
 made the triangulation fail

---
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 049bca1..c547541 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -34,6 +34,15 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     pointList.push_list(point_list);
     std::vector<int> regionIndex = pointList.push_list(regionPoints);
 
+    std::vector<IndexSegment> restrictedIndex;
+    for (PointSegment s : restrictedSegments) {
+        Point first = s.getFirst();
+        Point second = s.getSecond();
+        int firstIndex = pointList.push_back(first);
+        int secondIndex = pointList.push_back(second);
+        restrictedIndex.push_back(IndexSegment(firstIndex, secondIndex));
+    }
+
     in.numberofpoints = pointList.size();
     in.pointlist = (REAL*)malloc(in.numberofpoints*2*sizeof(REAL));
     in.numberofpointattributes = 1;
@@ -62,10 +71,8 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     }
 
     for (int j=0; j<restrictedSegments.size(); j++){
-        PointSegment s = restrictedSegments[j];
-
-        in.segmentlist[2*k] = pointList.indexOf(s.getFirst());
-        in.segmentlist[2*k+1] = pointList.indexOf(s.getSecond());
+        in.segmentlist[2*k] = restrictedIndex[j].getFirst();
+        in.segmentlist[2*k+1] = restrictedIndex[j].getSecond();
         k++;
     }
 
-- 
2.43.0


From f34b377ed3d4766617ebdd8851df8d587562b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 14/40] fix: Delaunay polygon triangulation used points that
 are not of the polygon and lost the original indices

---
 .../DelaunayTriangulationGenerator.cpp        | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
index 0c75bb6..23fc9b8 100644
--- a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
@@ -3,8 +3,24 @@
 std::vector<Triangle> DelaunayTriangulationGenerator::triangulate(Polygon p, std::vector<Point>& points) {
     Region r (p, points);
 
-    TriangleDelaunayGenerator generator(points,r);
+    std::vector<Point> polygonPoints = p.getPoints(points);
+    std::vector<int> polygonIndexes = p.getPoints();
+
+    //Only the points of the polygon are triangulated, and the result is given in the indexes of the original list
+    TriangleDelaunayGenerator generator(polygonPoints, r);
     Mesh<Triangle> triangulation = generator.getConstrainedDelaunayTriangulation();
 
-    return triangulation.getPolygons();
+    std::vector<int> originalIndex;
+    for (Point& vertex : triangulation.getPoints().getList()) {
+        originalIndex.push_back(polygonIndexes[utilities::indexOf(polygonPoints, vertex)]);
+    }
+
+    std::vector<Triangle> triangles;
+    for (Triangle& t : triangulation.getPolygons()) {
+        std::vector<int>& vertices = t.getPoints();
+        triangles.push_back(Triangle({originalIndex[vertices[0]], originalIndex[vertices[1]],
+                                      originalIndex[vertices[2]]}, points));
+    }
+
+    return triangles;
 }
-- 
2.43.0


From b00f7e4cad0f6ec54c7936a70b526fa1c0508db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 15/40] fix: every polygon whose first three vertices are
 collinear was reported as convex

---
 delynoi/src/models/polygon/Polygon.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index b342b97..f726598 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -195,14 +195,19 @@ bool Polygon::inEdges(std::vector<Point>& p, Point point) {
 bool Polygon::isConvex(std::vector<Point>& p) {
     int n = (int) this->points.size();
 
-    double determinant = delynoi_utilities::orientation(p[this->points[0]],p[this->points[1]],p[this->points[2]]);
+    double determinant = 0;
 
-    for(int i=1;i<n; i++){
+    for(int i=0;i<n; i++){
         double newResult = delynoi_utilities::orientation(p[this->points[i]],p[this->points[(i+1)%n]],p[this->points[(i+2)%n]]);
 
         if(determinant*newResult<0){
             return false;
         }
+
+        //Collinear vertices do not define the orientation of the polygon
+        if(newResult!=0){
+            determinant = newResult;
+        }
     }
 
     return true;
-- 
2.43.0


From a671224c9041786f76e8e2f213c8ee9e25383d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 16/40] fix: ear triangulation cut off reflex vertices, as
 every triangle was taken for an ear

---
 delynoi/src/triangulation/EarTriangulationGenerator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/triangulation/EarTriangulationGenerator.cpp b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
index fc73a4e..69404ca 100644
--- a/delynoi/src/triangulation/EarTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
@@ -18,7 +18,8 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
         bool test = false;
         Triangle t ({pointList[(size+i-1)%size], pointList[i%size], pointList[(size+i+1)%size]}, points);
 
-        if(t.isConvex(points)){
+        if(delynoi_utilities::orientation(points[pointList[(size+i-1)%size]], points[pointList[i]],
+                                          points[pointList[(i+1)%size]])>0){
             for(int j=0;j<size;j++){
                 if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){
                     test = true;
@@ -39,6 +40,8 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
 
 std::vector<Triangle> EarTriangulationGenerator::triangulate(Polygon p, std::vector<Point>& points) {
     std::vector<Triangle> triangles;
+
+    p.fixCCW(points);
     std::vector<int> pointList = p.getPoints();
 
     while(pointList.size()>=3){
-- 
2.43.0


From 73d599476b6d8cce108d444f5b6d074bf4d1760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 17/40] fix: self-intersecting point lists were accepted, as
 the exception was created but not thrown

---
 delynoi/src/models/polygon/Polygon.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index f726598..f9ee13c 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -33,15 +33,10 @@ void Polygon::mutate(std::vector<Point> &p) {
 }
 
 Polygon::Polygon(std::vector<Point> &p) {
-    if(isSelfIntersecting(p)){
-        std::invalid_argument("Self intersecting polygons are not supported");
-    }
-
     delynoi_utilities::TrivialIndexVector(this->points,p.size());
 
-    std::vector<Point> this_points;
-    for(int i=0;i<points.size();i++){
-        this_points.push_back(p[points[i]]);
+    if(isSelfIntersecting(p)){
+        throw std::invalid_argument("Self intersecting polygons are not supported");
     }
 
     this->diameter = -1;
@@ -294,8 +289,17 @@ bool Polygon::operator<(const Polygon &other) const {
 }
 
 bool Polygon::isSelfIntersecting(std::vector<Point>& points) {
+    std::vector<IndexSegment> allSegments;
+    this->getSegments(allSegments);
+
+    //A repeated vertex is not an intersection
     std::vector<IndexSegment> segments;
-    this->getSegments(segments);
+    for (IndexSegment s : allSegments) {
+        if(!(points[s.getFirst()] == points[s.getSecond()])){
+            segments.push_back(s);
+        }
+    }
+
     int n = segments.size();
     Point intersection;
 
-- 
2.43.0


From 955d513b036a8295717d0947f09ac9424c1626de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 18/40] fix: coordinates overflowed 32 bits when holes were
 clipped in domains far from the origin

---
 delynoi/src/models/Region.cpp                      | 8 ++++----
 delynoi/src/models/hole/clipper/ClipperWrapper.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 60ded86..6b7389e 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -44,14 +44,14 @@ void Region::addHole(Hole h) {
     ClipperLib::Paths solution;
 
     for(int i=0;i<this->p.size(); i++){
-        region << ClipperLib::IntPoint((int)(config->getScale()*this->p[i].getX()),
-                                       (int)(config->getScale()*this->p[i].getY()));
+        region << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*this->p[i].getX()),
+                                       (ClipperLib::cInt)(config->getScale()*this->p[i].getY()));
     }
 
     std::vector<Point> holePoints = h.getPoints();
     for(int i=0;i<holePoints.size();i++){
-        hole << ClipperLib::IntPoint((int)(config->getScale()*holePoints[i].getX()),
-                                     (int)(config->getScale()*holePoints[i].getY()));
+        hole << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*holePoints[i].getX()),
+                                     (ClipperLib::cInt)(config->getScale()*holePoints[i].getY()));
     }
 
     ClipperLib::Clipper clipper;
diff --git a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
index 76f31b8..d1db946 100644
--- a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
+++ b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
@@ -21,7 +21,7 @@ ClipperLib::Paths ClipperWrapper::polyIntersection(std::vector<Point> parent, st
 }
 
 ClipperLib::IntPoint ClipperWrapper::scalePoint(Point point, int maxScale) {
-    return ClipperLib::IntPoint((int)(maxScale*point.getX()), (int)(maxScale*point.getY()));
+    return ClipperLib::IntPoint((ClipperLib::cInt)(maxScale*point.getX()), (ClipperLib::cInt)(maxScale*point.getY()));
 }
 
 
-- 
2.43.0


From 7a1c776218f55c0cbe5d0f25ca805d1b8da0faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 19/40] fix: holes covering or dividing the region corrupted it
 instead of being rejected

---
 delynoi/src/models/Region.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 6b7389e..f9e3cf7 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -59,24 +59,33 @@ void Region::addHole(Hole h) {
     clipper.AddPath(hole, ClipperLib::ptClip, true);
     clipper.Execute(ClipperLib::ctDifference, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
 
-    if(solution.size()==1){
+    ClipperLib::Paths outlines, inner;
+    for(int i=0;i<solution.size();i++){
+        if(ClipperLib::Orientation(solution[i])){
+            outlines.push_back(solution[i]);
+        }else{
+            inner.push_back(solution[i]);
+        }
+    }
+
+    if(outlines.size()!=1 || inner.size()>1){
+        throw std::invalid_argument("Hole covers the domain region or divides it");
+    }
+
+    if(inner.empty()){
         //Hole does intersect, so Region has to change and the hole "disappears"
         std::vector<Point> newPoints;
 
-        for(int i=0;i<solution[0].size();i++){
-            newPoints.push_back(Point(solution[0][i].X/(1.0*config->getScale()),
-                                      solution[0][i].Y/(1.0*config->getScale())));
+        for(int i=0;i<outlines[0].size();i++){
+            newPoints.push_back(Point(outlines[0][i].X/(1.0*config->getScale()),
+                                      outlines[0][i].Y/(1.0*config->getScale())));
         }
 
+        Polygon newOutline(newPoints);
         this->mutate(newPoints);
     }else{
-        //Two cases, hole is completely inside or completely outside, just ignore holes outside
-
-        if(Polygon::containsPoint(this->p, h.getCenter())){
-            this->holes.push_back(h);
-        }else{
-            throw std::invalid_argument("Hole lies completely outside of domain region");
-        }
+        //Hole is completely inside
+        this->holes.push_back(h);
     }
 }
 
-- 
2.43.0


From 840eb50453fdb0b48f43a510f27448f05e6465ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 20/40] fix: holes whose centroid lies outside of them removed
 the wrong part of the domain

---
 delynoi/src/models/hole/PolygonalHole.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/delynoi/src/models/hole/PolygonalHole.cpp b/delynoi/src/models/hole/PolygonalHole.cpp
index 2020647..7386797 100644
--- a/delynoi/src/models/hole/PolygonalHole.cpp
+++ b/delynoi/src/models/hole/PolygonalHole.cpp
@@ -1,10 +1,23 @@
 #include <delynoi/models/hole/PolygonalHole.h>
+#include <delynoi/triangulation/EarTriangulationGenerator.h>
 
 PolygonalHole::PolygonalHole(std::vector<Point>& p) : Polygon(p) {
     for(int i=0;i<p.size();i++){
         this->HolePoints.push_back(p.at(i));
     }
     this->center = this->getCentroid(p);
+
+    //The center must lie inside the hole, which is not the case for the centroid of every non convex polygon
+    if(!Polygon::containsPoint(p, this->center) || Polygon::inEdges(p, this->center)){
+        double maxArea = 0;
+        for(Triangle& t : EarTriangulationGenerator().triangulate(*this, p)){
+            if(t.getArea(p) > maxArea){
+                maxArea = t.getArea(p);
+                this->center = t.getAverage(p);
+            }
+        }
+    }
+
     Polygon::getSegments(this->segments);
 }
 
-- 
2.43.0


From a8dda2111c51d5339b2bbec6fb524af872d89754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 21/40] fix: Voronoi vertices on the boundary were not flagged
 when they coincide with a circumcentre

---
 delynoi/src/voronoi/DelaunayToVoronoi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delynoi/src/voronoi/DelaunayToVoronoi.cpp b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
index 89c199e..210bcc8 100644
--- a/delynoi/src/voronoi/DelaunayToVoronoi.cpp
+++ b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
@@ -75,6 +75,7 @@ DelaunayToVoronoi::DelaunayToVoronoi(DelaunayInfo& del) {
             } else{
                 regionCenter.setBoundary();
                 int regionIndex = del.circumcenters.push_back(regionCenter);
+                del.circumcenters[regionIndex].setBoundary();
 
                 cellPoints.push_back(regionIndex);
                 pointMap->insert(del.circumcenters[regionIndex], cellIndex);
@@ -113,6 +114,7 @@ int DelaunayToVoronoi::getCircumcenter(DelaunayInfo& del, int triangle, int edge
         middlePoint.setBoundary();
 
         int circumcenterIndex = del.circumcenters.push_back(middlePoint);
+        del.circumcenters[circumcenterIndex].setBoundary();
 
         return circumcenterIndex;
     }
-- 
2.43.0


From 2a7ce03e2dc40a0ed717cdb5c9556d8c3f829960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 22/40] fix: getMaxDistance gave the longest side instead of
 the largest distance between vertices

---
 delynoi/src/models/polygon/Polygon.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index f9ee13c..e0750fe 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -346,15 +346,17 @@ Point Polygon::getAverage(std::vector<Point> &p) {
 
 double Polygon::getMaxDistance(std::vector<Point> &points) {
     int n = this->points.size();
-    double maxEdge = LLONG_MIN;
+    double maxDistance = LLONG_MIN;
 
-    for (int i = 0; i < this->points.size(); ++i) {
-        double distance = IndexSegment(this->points[i], this->points[(i+1)%n]).length(points);
+    for (int i = 0; i < n; ++i) {
+        for (int j = i+1; j < n; ++j) {
+            double distance = IndexSegment(this->points[i], this->points[j]).length(points);
 
-        if(distance > maxEdge){
-            maxEdge = distance;
+            if(distance > maxDistance){
+                maxDistance = distance;
+            }
         }
     }
 
-    return maxEdge;
+    return maxDistance;
 }
-- 
2.43.0


From 0b45c0707c6052c2c46c8580991809bd91966213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 23/40] fix: UniqueList::pop_front left the indices of the
 remaining elements one too high

---
 lib/utilities/include/utilities/UniqueList.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/utilities/include/utilities/UniqueList.h b/lib/utilities/include/utilities/UniqueList.h
index 4488837..0dfc7e6 100644
--- a/lib/utilities/include/utilities/UniqueList.h
+++ b/lib/utilities/include/utilities/UniqueList.h
@@ -70,6 +70,11 @@ void UniqueList<T>::pop_front() {
 
     this->list.erase(this->list.begin());
     this->map.erase(elem);
+
+    //All remaining elements move one place
+    for (auto& entry : this->map) {
+        entry.second--;
+    }
 }
 
 template <class T>
-- 
2.43.0


From 4e5ffb4a19d7eeda3772c0446ad85c6742aeae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 24/40] fix: looking up an edge which is not in the mesh added
 it with undefined neighbours

---
 delynoi/include/delynoi/models/Mesh.h                         | 4 ++++
 .../delynoi/models/neighbourhood/NeighboursBySegment.h        | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 4bd46dd..83625fa 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -274,6 +274,10 @@ Point Mesh<T>::getPoint(int i) {
 
 template <typename T>
 NeighboursBySegment Mesh<T>::getNeighbours(IndexSegment s) {
+    if(!this->edges->containsSegment(s)){
+        return NeighboursBySegment();
+    }
+
     return this->edges->get(s);
 }
 
diff --git a/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h b/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
index ddc7c67..8da0638 100644
--- a/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
+++ b/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
@@ -13,7 +13,7 @@ private:
     /*
      * Indexes of the polygons that contain a segment
      */
-    int n1;
+    int n1 = -1;
     int n2 = -1;
 public:
     /*
-- 
2.43.0


From b2a2f7d9d0bf15baf15e0447dd28583df37f760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 25/40] fix: constantAlternating shifted the first point of
 every other row by the wrong amount

---
 delynoi/src/models/generator/functions/FunctorClasses.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/generator/functions/FunctorClasses.cpp b/delynoi/src/models/generator/functions/FunctorClasses.cpp
index 7c7b12b..fc9697a 100644
--- a/delynoi/src/models/generator/functions/FunctorClasses.cpp
+++ b/delynoi/src/models/generator/functions/FunctorClasses.cpp
@@ -89,6 +89,7 @@ public:
         if(index<visitedPlaces.size()-1){
             alternating = !alternating;
             visitedPlaces.clear();
+            visitedPlaces.push_back(x);
         }
 
         if(alternating){
-- 
2.43.0


From 3ceace6bb0b92141182cb2e9de108ad22852144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 26/40] fix: truncated or malformed seed files crashed or gave
 invented points

---
 delynoi/src/models/Region.cpp               | 13 ++---
 lib/utilities/include/utilities/utilities.h |  4 ++
 lib/utilities/src/utilities.cpp             | 53 ++++++++++++++++++++-
 3 files changed, 61 insertions(+), 9 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index f9e3cf7..094510e 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -108,19 +108,16 @@ void Region::addSeedsFromFile(std::string fileName) {
     std::ifstream infile;
     infile = utilities::openFile(fileName);
 
-    std::string line;
-    std::getline(infile, line);
-    int numberMeshPoints = std::atoi(line.c_str());
+    std::vector<Point> newSeeds;
+    int numberMeshPoints = utilities::readCount(infile);
     for (int i = 0; i < numberMeshPoints; ++i) {
-        std::getline(infile, line);
-        std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
+        std::vector<std::string> splittedLine = utilities::readFields(infile, 2);
 
-        Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
-        this->seedPoints.push_back(newPoint);
+        newSeeds.push_back(Point(utilities::parseDouble(splittedLine[0]), utilities::parseDouble(splittedLine[1])));
     }
 
     infile.close();
-    this->clean();
+    this->addSeedPoints(newSeeds);
 }
 
 BoundingBox Region::getBox() {
diff --git a/lib/utilities/include/utilities/utilities.h b/lib/utilities/include/utilities/utilities.h
index 22b9093..bcc23b7 100644
--- a/lib/utilities/include/utilities/utilities.h
+++ b/lib/utilities/include/utilities/utilities.h
@@ -41,6 +41,10 @@ namespace utilities{
     extern std::vector<std::string> split(std::string s, const std::regex regex);
     extern std::vector<std::string> splitBySpaces(std::string s);
     extern std::ifstream openFile(std::string fileName);
+    extern std::vector<std::string> readFields(std::ifstream& infile, int minimum);
+    extern int readCount(std::ifstream& infile);
+    extern double parseDouble(const std::string& field);
+    extern int parseInt(const std::string& field);
 }
 
 #endif 
diff --git a/lib/utilities/src/utilities.cpp b/lib/utilities/src/utilities.cpp
index ab83909..8197d92 100644
--- a/lib/utilities/src/utilities.cpp
+++ b/lib/utilities/src/utilities.cpp
@@ -12,6 +12,9 @@
 #include <iomanip>
 #include <fstream>
 #include <regex>
+#include <climits>
+#include <cstdlib>
+#include <stdexcept>
 
 namespace utilities {
     std::string toStringWithPrecision(double d, int precision){
@@ -95,6 +98,54 @@ namespace utilities {
 
         return infile;
     }
-}
 
+    //Reads a line with at least the given number of fields
+    std::vector<std::string> readFields(std::ifstream& infile, int minimum){
+        std::string line;
+
+        if(!std::getline(infile, line)){
+            throw std::runtime_error("File ends before all its content was found.");
+        }
+
+        std::vector<std::string> fields = splitBySpaces(line);
+        if((int) fields.size() < minimum){
+            throw std::runtime_error("Line with missing fields found in file: " + line);
+        }
+
+        return fields;
+    }
+
+    double parseDouble(const std::string& field){
+        char* end;
+        double value = std::strtod(field.c_str(), &end);
+
+        if(end == field.c_str() || *end != '\0' || !std::isfinite(value)){
+            throw std::runtime_error("Invalid number found in file: " + field);
+        }
+
+        return value;
+    }
+
+    int parseInt(const std::string& field){
+        char* end;
+        long long value = std::strtoll(field.c_str(), &end, 10);
+
+        if(end == field.c_str() || *end != '\0' || value < INT_MIN || value > INT_MAX){
+            throw std::runtime_error("Invalid integer found in file: " + field);
+        }
+
+        return (int) value;
+    }
 
+    //Reads a line consisting of the number of elements that follow
+    int readCount(std::ifstream& infile){
+        std::vector<std::string> fields = readFields(infile, 1);
+        int count = parseInt(fields[0]);
+
+        if(fields.size() != 1 || count < 0){
+            throw std::runtime_error("Invalid number of elements found in file.");
+        }
+
+        return count;
+    }
+}
-- 
2.43.0


From 864c804b47c5147518b51e99eb44e6257d661b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 27/40] fix: truncated or malformed mesh files crashed, and
 meshes with repeated points or printed by the library were misread

---
 delynoi/include/delynoi/models/Mesh.h | 64 ++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 83625fa..17ef636 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -166,36 +166,70 @@ void Mesh<T>::createFromFile(std::string fileName, int startIndex) {
 
 template <typename T>
 void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
-    std::string line;
-    std::getline(infile, line);
-    int numberMeshPoints = std::atoi(line.c_str());
+    std::vector<Point> newPoints;
+    int numberMeshPoints = utilities::readCount(infile);
     for (int i = 0; i < numberMeshPoints; ++i) {
-        std::getline(infile, line);
-        std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
+        std::vector<std::string> splittedLine = utilities::readFields(infile, 2);
 
-        Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
-        this->points.push_back(newPoint);
+        newPoints.push_back(Point(utilities::parseDouble(splittedLine[0]), utilities::parseDouble(splittedLine[1])));
     }
 
-    std::getline(infile, line);
-    int numberMeshPolygons = std::atoi(line.c_str());
+    //Files printed by the library list the edges between the points and the elements
+    std::vector<std::vector<int>> elements;
+    bool edgesFound = false;
+    bool edgesSection;
+    do {
+        edgesSection = false;
+        int numberMeshPolygons = utilities::readCount(infile);
+        for (int i = 0; i < numberMeshPolygons; ++i) {
+            std::vector<std::string> splittedLine = utilities::readFields(infile, 2);
+            if(i == 0){
+                edgesSection = !edgesFound && splittedLine.size() == 2;
+            }
+
+            int start = edgesSection? 0 : 1;
+            int sides = edgesSection? 2 : utilities::parseInt(splittedLine[0]);
+            if((int) splittedLine.size() - start != sides || (!edgesSection && sides < 3)){
+                throw std::runtime_error("Element with a wrong number of points found in file.");
+            }
+
+            std::vector<int> polygonPoints;
+            for (int j = start; j < splittedLine.size(); ++j) {
+                long long index = (long long) utilities::parseInt(splittedLine[j]) - startIndex;
+                if(index < 0 || index >= numberMeshPoints){
+                    throw std::runtime_error("Point index out of range found in file: " + splittedLine[j]);
+                }
+                polygonPoints.push_back((int) index);
+            }
+
+            if(!edgesSection){
+                elements.push_back(polygonPoints);
+            }
+        }
+        edgesFound = edgesSection;
+    } while(edgesSection);
 
-    for (int i = 0; i < numberMeshPolygons; ++i) {
-        std::getline(infile, line);
-        std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
+    std::vector<int> indexes = this->points.push_list(newPoints);
+    for (std::vector<int>& element : elements) {
+        int polygonIndex = this->polygons.size();
 
         std::vector<int> polygonPoints;
-        for (int j = 1; j < splittedLine.size(); ++j) {
-            polygonPoints.push_back(std::atoi(splittedLine[j].c_str()) - startIndex);
+        for (int index : element) {
+            polygonPoints.push_back(indexes[index]);
         }
 
         T newPolygon(polygonPoints, this->points.getList());
         this->polygons.push_back(newPolygon);
+
         std::vector<IndexSegment> segments;
         newPolygon.getSegments(segments);
 
         for (IndexSegment s: segments){
-            this->edges->insert(s, i);
+            this->edges->insert(s, polygonIndex);
+        }
+
+        for (int index : polygonPoints) {
+            this->pointMap->insert(this->points[index], polygonIndex);
         }
     }
 }
-- 
2.43.0


From 3fed4a37ce69fbfa36c4d77834eabb13c29ef1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 28/40] fix: collinear outline edges were taken for crossing
 ones, rejecting valid outlines

The intersection of two parallel segments divided by a determinant which is only zero up to
rounding, so for sloped outlines with collinear vertices a random place came out as crossing.
---
 delynoi/src/models/basic/Segment.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/delynoi/src/models/basic/Segment.cpp b/delynoi/src/models/basic/Segment.cpp
index 8f479a7..813724b 100644
--- a/delynoi/src/models/basic/Segment.cpp
+++ b/delynoi/src/models/basic/Segment.cpp
@@ -53,9 +53,16 @@ bool Segment<T>::intersects(Point p1, Point p2, Point o1, Point o2, Point &inter
     s1_x = p2.getX() - p1.getX();     s1_y = p2.getY() - p1.getY();
     s2_x = o2.getX() - o1.getX();     s2_y = o2.getY() - o1.getY();
 
+    double det = -s2_x * s1_y + s1_x * s2_y;
+
+    // For parallel segments the determinant is zero up to rounding, so dividing by it gives nothing but noise
+    if(std::abs(det) <= 1e-10*length(p1, p2)*length(o1, o2)){
+        return false;
+    }
+
     double s, t;
-    s = (-s1_y * (p1.getX() - o1.getX()) + s1_x * (p1.getY() - o1.getY())) / (-s2_x * s1_y + s1_x * s2_y);
-    t = ( s2_x * (p1.getY() - o1.getY()) - s2_y * (p1.getX() - o1.getX())) / (-s2_x * s1_y + s1_x * s2_y);
+    s = (-s1_y * (p1.getX() - o1.getX()) + s1_x * (p1.getY() - o1.getY())) / det;
+    t = ( s2_x * (p1.getY() - o1.getY()) - s2_y * (p1.getX() - o1.getX())) / det;
 
     if (s >= (0-tolerance) && s <= (1+tolerance) && t >= (0-tolerance) && t <= (1+tolerance)){
         double i_x = p1.getX() + (t * s1_x);
@@ -78,9 +85,16 @@ bool Segment<T>::intersectionInfinite(Point p1, Point p2, Point o1, Point o2, Po
     s1_x = p2.getX() - p1.getX();     s1_y = p2.getY() - p1.getY();
     s2_x = o2.getX() - o1.getX();     s2_y = o2.getY() - o1.getY();
 
+    double det = -s2_x * s1_y + s1_x * s2_y;
+
+    // For parallel segments the determinant is zero up to rounding, so dividing by it gives nothing but noise
+    if(std::abs(det) <= 1e-10*length(p1, p2)*length(o1, o2)){
+        return false;
+    }
+
     double s, t;
-    s = (-s1_y * (p1.getX() - o1.getX()) + s1_x * (p1.getY() - o1.getY())) / (-s2_x * s1_y + s1_x * s2_y);
-    t = ( s2_x * (p1.getY() - o1.getY()) - s2_y * (p1.getX() - o1.getX())) / (-s2_x * s1_y + s1_x * s2_y);
+    s = (-s1_y * (p1.getX() - o1.getX()) + s1_x * (p1.getY() - o1.getY())) / det;
+    t = ( s2_x * (p1.getY() - o1.getY()) - s2_y * (p1.getX() - o1.getX())) / det;
 
     if (t <= (1+tolerance) && t >= (0-tolerance)){
         double i_x = p1.getX() + (t * s1_x);
-- 
2.43.0


From 9a378504fd6e70a4847b6232a446555bcb3a79b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 29/40] fix: rules of a point generator that was used before
 displaced the next points with what they remembered of the earlier ones

---
 delynoi/include/delynoi/models/generator/Functor.h        | 5 +++++
 .../delynoi/models/generator/noise/RandomDoubleNoise.h    | 5 +++++
 .../delynoi/models/generator/noise/RandomIntegerNoise.h   | 5 +++++
 delynoi/src/models/generator/PointGenerator.cpp           | 8 ++++++++
 delynoi/src/models/generator/functions/FunctorClasses.cpp | 8 ++++++++
 delynoi/src/models/generator/noise/RandomDoubleNoise.cpp  | 4 ++++
 delynoi/src/models/generator/noise/RandomIntegerNoise.cpp | 4 ++++
 7 files changed, 39 insertions(+)

diff --git a/delynoi/include/delynoi/models/generator/Functor.h b/delynoi/include/delynoi/models/generator/Functor.h
index 3386bcc..5a65832 100644
--- a/delynoi/include/delynoi/models/generator/Functor.h
+++ b/delynoi/include/delynoi/models/generator/Functor.h
@@ -12,6 +12,11 @@ public:
      * @return value of the function with the given parameter
      */
     virtual double apply(double x) = 0;
+
+    /*
+     * Forgets everything remembered from the points already generated. Called when a new set of points begins.
+     */
+    virtual void reset() {}
 };
 
 
diff --git a/delynoi/include/delynoi/models/generator/noise/RandomDoubleNoise.h b/delynoi/include/delynoi/models/generator/noise/RandomDoubleNoise.h
index 639fd40..bf72852 100644
--- a/delynoi/include/delynoi/models/generator/noise/RandomDoubleNoise.h
+++ b/delynoi/include/delynoi/models/generator/noise/RandomDoubleNoise.h
@@ -42,6 +42,11 @@ public:
     */
     double apply(double x);
 
+    /*
+     * Makes the inner Function class forget the points already generated.
+     */
+    void reset();
+
 };
 
 #endif
\ No newline at end of file
diff --git a/delynoi/include/delynoi/models/generator/noise/RandomIntegerNoise.h b/delynoi/include/delynoi/models/generator/noise/RandomIntegerNoise.h
index 4998796..f63622f 100644
--- a/delynoi/include/delynoi/models/generator/noise/RandomIntegerNoise.h
+++ b/delynoi/include/delynoi/models/generator/noise/RandomIntegerNoise.h
@@ -39,6 +39,11 @@ public:
      * @return function result
      */
     double apply(double x);
+
+    /*
+     * Makes the inner Function class forget the points already generated.
+     */
+    void reset();
 };
 
 #endif
diff --git a/delynoi/src/models/generator/PointGenerator.cpp b/delynoi/src/models/generator/PointGenerator.cpp
index 765084f..dcba0ec 100644
--- a/delynoi/src/models/generator/PointGenerator.cpp
+++ b/delynoi/src/models/generator/PointGenerator.cpp
@@ -28,6 +28,14 @@ void PointGenerator::generate(std::vector <Point> &vector, BoundingBox box, int
     double dX = nX>1? box.getWidth()/(nX-1) : 0;
     double dY = nY>1? box.getHeight()/(nY-1) : 0;
 
+    if(variable!=functions::independent_variable::x){
+        this->lX->reset();
+    }
+
+    if(variable!=functions::independent_variable::y){
+        this->lY->reset();
+    }
+
     for(int i = 0; i<nY; i++){
         for(int j = 0; j<nX; j++){
             double x = box.xMin() + j*dX;
diff --git a/delynoi/src/models/generator/functions/FunctorClasses.cpp b/delynoi/src/models/generator/functions/FunctorClasses.cpp
index fc9697a..830fcce 100644
--- a/delynoi/src/models/generator/functions/FunctorClasses.cpp
+++ b/delynoi/src/models/generator/functions/FunctorClasses.cpp
@@ -70,6 +70,10 @@ public:
             return x;
         }
     }
+
+    inline void reset() {
+        alternating = false;
+    }
 };
 
 class ConstantAlternating: public Functor{
@@ -99,5 +103,9 @@ public:
         }
     }
 
+    inline void reset() {
+        visitedPlaces.clear();
+        alternating = false;
+    }
 };
 
diff --git a/delynoi/src/models/generator/noise/RandomDoubleNoise.cpp b/delynoi/src/models/generator/noise/RandomDoubleNoise.cpp
index a1ab960..873d768 100644
--- a/delynoi/src/models/generator/noise/RandomDoubleNoise.cpp
+++ b/delynoi/src/models/generator/noise/RandomDoubleNoise.cpp
@@ -15,3 +15,7 @@ RandomDoubleNoise::RandomDoubleNoise(Functor *f, double min, double max) {
 double RandomDoubleNoise::apply(double x) {
     return f->apply(x) + (uni)(this->rng) * ((uni_int)(this->rng)%2? 1 : -1);
 }
+
+void RandomDoubleNoise::reset() {
+    f->reset();
+}
diff --git a/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp b/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp
index 278ddb8..4086512 100644
--- a/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp
+++ b/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp
@@ -13,3 +13,7 @@ RandomIntegerNoise::RandomIntegerNoise(Functor *f, double min, double max) {
 double RandomIntegerNoise::apply(double x) {
     return f->apply(x) + (uni)(this->rng) * ((uni)(this->rng)%2? 1 : -1);
 }
+
+void RandomIntegerNoise::reset() {
+    f->reset();
+}
-- 
2.43.0


From 55b20f7898c160807825ac1e9b4f45f69f1c31b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 30/40] fix: restricted segments which cross one another and
 run through seeds gave degenerate triangles or an exception

---
 .../voronoi/TriangleDelaunayGenerator.h       |  8 +++++
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 33 +++++++++++++++++--
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index 02d6677..cb6e211 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -44,6 +44,14 @@ private:
      */
     void reset();
 
+    /* Divides segments at the points they go through, as Triangle finds those points reliably only in segments which
+     * do not cross others
+     * @param segments segments to divide
+     * @param points list of points
+     * @return the pieces of all segments
+     */
+    std::vector<IndexSegment> splitAtPoints(std::vector<IndexSegment> segments, const std::vector<Point>& points);
+
     /* Calls the Triangle library, filling the class members with the result
      * @param point_list points which Delaunay triangulation must be computed
      * @param switches list of switches for Triangle (define a number of options)
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index c547541..819ca2c 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -1,4 +1,5 @@
 #include "delynoi/voronoi/TriangleDelaunayGenerator.h"
+#include <algorithm>
 
 TriangleDelaunayGenerator::TriangleDelaunayGenerator(const std::vector<Point>& points, Region region) {
     this->region = region;
@@ -42,6 +43,7 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
         int secondIndex = pointList.push_back(second);
         restrictedIndex.push_back(IndexSegment(firstIndex, secondIndex));
     }
+    restrictedIndex = this->splitAtPoints(restrictedIndex, pointList.getList());
 
     in.numberofpoints = pointList.size();
     in.pointlist = (REAL*)malloc(in.numberofpoints*2*sizeof(REAL));
@@ -61,7 +63,7 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     std::vector<IndexSegment> segments;
     region.getSegments(segments);
 
-    in.numberofsegments = (int) (segments.size() + restrictedSegments.size());
+    in.numberofsegments = (int) (segments.size() + restrictedIndex.size());
     in.segmentlist = (int*)malloc(in.numberofsegments*2*sizeof(int));
     in.segmentmarkerlist = (int*) NULL;
     int k;
@@ -70,7 +72,7 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
         in.segmentlist[2*k+1] = regionIndex[segments[k].getSecond()];
     }
 
-    for (int j=0; j<restrictedSegments.size(); j++){
+    for (int j=0; j<restrictedIndex.size(); j++){
         in.segmentlist[2*k] = restrictedIndex[j].getFirst();
         in.segmentlist[2*k+1] = restrictedIndex[j].getSecond();
         k++;
@@ -160,6 +162,33 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     free(out.edgemarkerlist);
 }
 
+std::vector<IndexSegment> TriangleDelaunayGenerator::splitAtPoints(std::vector<IndexSegment> segments,
+                                                                   const std::vector<Point> &points) {
+    std::vector<IndexSegment> pieces;
+
+    for (IndexSegment s : segments) {
+        std::vector<std::pair<double, int>> inside;
+
+        for (int i = 0; i < points.size(); ++i) {
+            if (!s.isVertex(i) && s.contains(points, points[i])) {
+                inside.push_back(std::make_pair(IndexSegment(s.getFirst(), i).length(points), i));
+            }
+        }
+
+        std::sort(inside.begin(), inside.end());
+        int last = s.getFirst();
+
+        for (auto &p : inside) {
+            pieces.push_back(IndexSegment(last, p.second));
+            last = p.second;
+        }
+
+        pieces.push_back(IndexSegment(last, s.getSecond()));
+    }
+
+    return pieces;
+}
+
 Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
     char switches[] = "pzejDQ";
     callTriangle(seedPoints, switches);
-- 
2.43.0


From 937521c64c23e138833a0f7db007683c0ee0a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 31/40] fix: overlapping holes left triangles in what they have
 in common, and in the rest of a hole whose centre was cut away

---
 delynoi/src/models/Region.cpp | 46 ++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 094510e..a0f5e9d 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -54,9 +54,40 @@ void Region::addHole(Hole h) {
                                      (ClipperLib::cInt)(config->getScale()*holePoints[i].getY()));
     }
 
+    if(!ClipperLib::Orientation(hole)){
+        ClipperLib::ReversePath(hole);
+    }
+
     ClipperLib::Clipper clipper;
     clipper.AddPath(region, ClipperLib::ptSubject, true);
     clipper.AddPath(hole, ClipperLib::ptClip, true);
+
+    //Holes that overlap the new one become a single hole with it
+    std::vector<Hole> separateHoles;
+    for(Hole other : this->holes){
+        ClipperLib::Path otherHole;
+        for(Point point : other.getPoints()){
+            otherHole << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*point.getX()),
+                                              (ClipperLib::cInt)(config->getScale()*point.getY()));
+        }
+
+        if(!ClipperLib::Orientation(otherHole)){
+            ClipperLib::ReversePath(otherHole);
+        }
+
+        ClipperLib::Paths common;
+        ClipperLib::Clipper overlap;
+        overlap.AddPath(hole, ClipperLib::ptSubject, true);
+        overlap.AddPath(otherHole, ClipperLib::ptClip, true);
+        overlap.Execute(ClipperLib::ctIntersection, common, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
+
+        if(common.empty()){
+            separateHoles.push_back(other);
+        }else{
+            clipper.AddPath(otherHole, ClipperLib::ptClip, true);
+        }
+    }
+
     clipper.Execute(ClipperLib::ctDifference, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
 
     ClipperLib::Paths outlines, inner;
@@ -83,9 +114,22 @@ void Region::addHole(Hole h) {
 
         Polygon newOutline(newPoints);
         this->mutate(newPoints);
-    }else{
+        this->holes = separateHoles;
+    }else if(separateHoles.size() == this->holes.size()){
         //Hole is completely inside
         this->holes.push_back(h);
+    }else{
+        //Hole is completely inside, and so is its union with the holes it overlaps
+        std::vector<Point> newPoints;
+
+        for(int i=0;i<inner[0].size();i++){
+            newPoints.push_back(Point(inner[0][i].X/(1.0*config->getScale()),
+                                      inner[0][i].Y/(1.0*config->getScale())));
+        }
+
+        PolygonalHole newHole(newPoints);
+        this->holes = separateHoles;
+        this->holes.push_back(newHole);
     }
 }
 
-- 
2.43.0


From 7521bfe3141eef8d40f9654c92c28747866a4f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 32/40] fix: polygons of different vertices compared equal when
 the hashes of their indices have the same sum

---
 delynoi/src/models/polygon/Polygon.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index e0750fe..2feb385 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -240,7 +240,8 @@ bool Polygon::isClockwise(std::vector<Point> &p) {
 }
 
 bool Polygon::operator==(const Polygon &other) const{
-    return this->hash==other.hash;
+    return this->hash==other.hash && this->points.size()==other.points.size() &&
+           std::is_permutation(this->points.begin(), this->points.end(), other.points.begin());
 }
 
 std::string Polygon::getString() {
@@ -285,7 +286,17 @@ std::vector<Point> Polygon::getPoints(std::vector<Point> &p) {
 }
 
 bool Polygon::operator<(const Polygon &other) const {
-    return this->hash<other.hash;
+    if(this->hash!=other.hash){
+        return this->hash<other.hash;
+    }
+
+    //Different vertices can have the same hash
+    std::vector<int> vertices = this->points;
+    std::vector<int> otherVertices = other.points;
+    std::sort(vertices.begin(), vertices.end());
+    std::sort(otherVertices.begin(), otherVertices.end());
+
+    return vertices<otherVertices;
 }
 
 bool Polygon::isSelfIntersecting(std::vector<Point>& points) {
-- 
2.43.0


From 598c77818db291c3771b693010db8829ad086fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 33/40] fix: centroid and signed area of polygons far from the
 origin were wrong by more than their size, the products losing all digits

---
 delynoi/src/models/polygon/Polygon.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 2feb385..dccabc8 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -103,8 +103,9 @@ double Polygon::signedArea(std::vector<Point>& p) {
     double area = 0;
     int n = (int) this->points.size();
 
+    //Relative to the first vertex, as far from the origin the products lose the digits the differences need
     for(int i=0;i<n;i++){
-        area += p[points[i]].getX()*p[points[(i+1)%n]].getY() - p[points[(i+1)%n]].getX()*p[points[i]].getY();
+        area += geometry_functions::area2(p[points[0]], p[points[i]], p[points[(i+1)%n]]);
     }
 
     return 0.5*area;
@@ -124,17 +125,18 @@ Point Polygon::calculateCentroid(std::vector<Point>& p) {
     double partial_x = 0;
     double partial_y = 0;
 
+    //Relative to the first vertex, as far from the origin the products lose the digits the differences need
     for(int i=0;i<n;i++){
-        Point pi = p[points[i]];
-        Point pi1 = p[points[(i+1)%n]];
+        Point pi = p[points[i]] - p[points[0]];
+        Point pi1 = p[points[(i+1)%n]] - p[points[0]];
 
         partial_x += (pi.getX() + pi1.getX())*(pi.getX()*pi1.getY() - pi1.getX()*pi.getY());
         partial_y += (pi.getY() + pi1.getY())*(pi.getX()*pi1.getY() - pi1.getX()*pi.getY());
     }
 
     double A = this->signedArea(p);
-    double cX = partial_x/(6*A);
-    double cY = partial_y/(6*A);
+    double cX = p[points[0]].getX() + partial_x/(6*A);
+    double cY = p[points[0]].getY() + partial_y/(6*A);
 
     return Point (cX,cY);
 }
-- 
2.43.0


From e8a41db66ee0cbcb5eef3853b481a4ac4e48aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 34/40] fix: circumcentres of triangles far from the origin
 were off by more than the tolerance, so were the Voronoi vertices

---
 delynoi/src/models/polygon/Triangle.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/delynoi/src/models/polygon/Triangle.cpp b/delynoi/src/models/polygon/Triangle.cpp
index 3b4b29d..9f36526 100644
--- a/delynoi/src/models/polygon/Triangle.cpp
+++ b/delynoi/src/models/polygon/Triangle.cpp
@@ -28,15 +28,16 @@ int Triangle::getCircumcenterIndex() {
 
 Point Triangle::calculateCircumcenter(std::vector<Point>& p){
     Point A = p[this->points[0]];
-    Point B = p[this->points[1]];
-    Point C = p[this->points[2]];
+    //Relative to the first vertex, as far from the origin the squares lose the digits the differences need
+    Point B = p[this->points[1]] - A;
+    Point C = p[this->points[2]] - A;
 
-    double d = 2*(A.getX()*(B.getY() - C.getY()) + B.getX()*(C.getY() - A.getY()) + C.getX()*(A.getY() - B.getY()));
+    double d = 2*delynoi_utilities::crossProduct(B, C);
 
-    double uX = (A.squareNorm()*(B.getY() - C.getY()) + B.squareNorm()*(C.getY() - A.getY()) + C.squareNorm()*(A.getY() - B.getY()))/d;
-    double uY = (A.squareNorm()*(C.getX() - B.getX()) + B.squareNorm()*(A.getX() - C.getX()) + C.squareNorm()*(B.getX() - A.getX()))/d;
+    double uX = (B.squareNorm()*C.getY() - C.squareNorm()*B.getY())/d;
+    double uY = (C.squareNorm()*B.getX() - B.squareNorm()*C.getX())/d;
 
-    return Point(uX,uY);
+    return Point(A.getX() + uX, A.getY() + uY);
 }
 
 int Triangle::nextEdge(int center, EdgeData edge, std::unordered_map<Key, int, KeyHasher>& edgeMap) {
-- 
2.43.0


From 8ff27c00b2787f77cf24289a32df705446c226f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 35/40] fix: points on long edges far from the origin were not
 found on them, the products rounding to more than the tolerance

---
 delynoi/src/models/basic/Segment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Segment.cpp b/delynoi/src/models/basic/Segment.cpp
index 813724b..da548de 100644
--- a/delynoi/src/models/basic/Segment.cpp
+++ b/delynoi/src/models/basic/Segment.cpp
@@ -28,8 +28,9 @@ bool Segment<T>::contains(Point point, Point p1, Point p2) {
     bool test2 =  ((point.getY()>=p1.getY() || std::abs(point.getY()-p1.getY())<config->getTolerance()) && (point.getY()<=p2.getY() || std::abs(point.getY()-p2.getY())<config->getTolerance()) ||
                   ((point.getY()>=p2.getY() || std::abs(point.getY()-p2.getY())<config->getTolerance()) && (point.getY()<=p1.getY() || std::abs(point.getY()-p1.getY())<config->getTolerance())));
 
+    //Relative to the first point, as for large coordinates the products round to more than the tolerance
     return  test1 &&  test2 &&
-            std::abs(p1.getX()*(p2.getY()-point.getY()) + p2.getX()*(point.getY()-p1.getY()) + point.getX()*(p1.getY()-p2.getY()))<config->getTolerance();
+            std::abs((p2.getX()-p1.getX())*(point.getY()-p1.getY()) - (p2.getY()-p1.getY())*(point.getX()-p1.getX()))<config->getTolerance();
 }
 
 template <class T>
-- 
2.43.0


From 2fdb2bd655b2347bc879f7140e14e8f4d4cdeaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 36/40] fix: a hole with a vertex listed twice and its centroid
 outside was not removed, as no ears were found

---
 delynoi/src/triangulation/EarTriangulationGenerator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/triangulation/EarTriangulationGenerator.cpp b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
index 69404ca..7133f9b 100644
--- a/delynoi/src/triangulation/EarTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
@@ -20,8 +20,13 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
 
         if(delynoi_utilities::orientation(points[pointList[(size+i-1)%size]], points[pointList[i]],
                                           points[pointList[(i+1)%size]])>0){
+            std::vector<Point> corners = t.getPoints(points);
+
             for(int j=0;j<size;j++){
-                if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){
+                //A vertex listed twice lies in the triangle only as one of its corners
+                bool isCorner = utilities::indexOf(corners, points[pointList[j]]) != -1;
+
+                if(!isCorner && t.containsPoint(points, points[pointList[j]])){
                     test = true;
                 }
             }
-- 
2.43.0


From dd93f1caffb5a84768934f617993e731c717cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 37/40] fix: outline coordinates were truncated to the clipping
 scale, moving corners by a whole unit and again with every further hole

---
 delynoi/src/models/Region.cpp                      | 13 +++++++------
 delynoi/src/models/hole/clipper/ClipperWrapper.cpp |  3 ++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index a0f5e9d..bc18e4d 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -1,4 +1,5 @@
 #include <delynoi/models/Region.h>
+#include <cmath>
 
 Region::Region(std::vector<Point>& points) : Polygon(points){
     this->p = points;
@@ -44,14 +45,14 @@ void Region::addHole(Hole h) {
     ClipperLib::Paths solution;
 
     for(int i=0;i<this->p.size(); i++){
-        region << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*this->p[i].getX()),
-                                       (ClipperLib::cInt)(config->getScale()*this->p[i].getY()));
+        region << ClipperLib::IntPoint((ClipperLib::cInt) std::llround(config->getScale()*this->p[i].getX()),
+                                       (ClipperLib::cInt) std::llround(config->getScale()*this->p[i].getY()));
     }
 
     std::vector<Point> holePoints = h.getPoints();
     for(int i=0;i<holePoints.size();i++){
-        hole << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*holePoints[i].getX()),
-                                     (ClipperLib::cInt)(config->getScale()*holePoints[i].getY()));
+        hole << ClipperLib::IntPoint((ClipperLib::cInt) std::llround(config->getScale()*holePoints[i].getX()),
+                                     (ClipperLib::cInt) std::llround(config->getScale()*holePoints[i].getY()));
     }
 
     if(!ClipperLib::Orientation(hole)){
@@ -67,8 +68,8 @@ void Region::addHole(Hole h) {
     for(Hole other : this->holes){
         ClipperLib::Path otherHole;
         for(Point point : other.getPoints()){
-            otherHole << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*point.getX()),
-                                              (ClipperLib::cInt)(config->getScale()*point.getY()));
+            otherHole << ClipperLib::IntPoint((ClipperLib::cInt) std::llround(config->getScale()*point.getX()),
+                                              (ClipperLib::cInt) std::llround(config->getScale()*point.getY()));
         }
 
         if(!ClipperLib::Orientation(otherHole)){
diff --git a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
index d1db946..72242ad 100644
--- a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
+++ b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
@@ -1,4 +1,5 @@
 #include <delynoi/models/hole/clipper/ClipperWrapper.h>
+#include <cmath>
 
 ClipperLib::Paths ClipperWrapper::polyIntersection(std::vector<Point> parent, std::vector<Point> child, int maxScale) {
     ClipperLib::Path region, hole;
@@ -21,7 +22,7 @@ ClipperLib::Paths ClipperWrapper::polyIntersection(std::vector<Point> parent, st
 }
 
 ClipperLib::IntPoint ClipperWrapper::scalePoint(Point point, int maxScale) {
-    return ClipperLib::IntPoint((ClipperLib::cInt)(maxScale*point.getX()), (ClipperLib::cInt)(maxScale*point.getY()));
+    return ClipperLib::IntPoint((ClipperLib::cInt) std::llround(maxScale*point.getX()), (ClipperLib::cInt) std::llround(maxScale*point.getY()));
 }
 
 
-- 
2.43.0


From 3ffd65f4fe89743847db755b1757fc7342a707be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 38/40] fix: a unique list did not find elements appended by
 force, nor those left after removing the first of several

---
 lib/utilities/include/utilities/UniqueList.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/utilities/include/utilities/UniqueList.h b/lib/utilities/include/utilities/UniqueList.h
index 0dfc7e6..2b4893d 100644
--- a/lib/utilities/include/utilities/UniqueList.h
+++ b/lib/utilities/include/utilities/UniqueList.h
@@ -60,20 +60,19 @@ int UniqueList<T>::push_back(T& item) {
 template <class T>
 int UniqueList<T>::force_push_back(T &item) {
     list.push_back(item);
+    map.insert(std::make_pair(item, (int) list.size()-1));
 
     return (int) list.size()-1;
 }
 
 template <class T>
 void UniqueList<T>::pop_front() {
-    T elem = this->list[0];
-
     this->list.erase(this->list.begin());
-    this->map.erase(elem);
+    this->map.clear();
 
-    //All remaining elements move one place
-    for (auto& entry : this->map) {
-        entry.second--;
+    //All remaining elements move one place, and the removed one may have been stored again
+    for (int i=0;i<this->list.size();i++){
+        this->map.insert(std::make_pair(this->list[i], i));
     }
 }
 
-- 
2.43.0


From dc2be3b211120c621df570adc592667697265ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 39/40] fix: the point map of a Voronoi mesh listed cells
 several times, once for every edge ending at the vertex

---
 delynoi/src/voronoi/DelaunayToVoronoi.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/voronoi/DelaunayToVoronoi.cpp b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
index 210bcc8..1b5a251 100644
--- a/delynoi/src/voronoi/DelaunayToVoronoi.cpp
+++ b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
@@ -26,11 +26,9 @@ DelaunayToVoronoi::DelaunayToVoronoi(DelaunayInfo& del) {
             voronoiEdges->insert(e, cellIndex);
 
             cellPoints.push_back(index2);
-            pointMap->insert(del.circumcenters[index2], cellIndex);
         }
 
         cellPoints.push_back(index1);
-        pointMap->insert(del.circumcenters[index1], cellIndex);
 
         EdgeData edge = del.edges[del.triangles[t1].nextEdge(index, init_edge, del.edgeMap)];
 
@@ -50,11 +48,9 @@ DelaunayToVoronoi::DelaunayToVoronoi(DelaunayInfo& del) {
                 voronoiEdges->insert(e, cellIndex);
 
                 cellPoints.push_back(index2);
-                pointMap->insert(del.circumcenters[index2], cellIndex);
             }
 
             cellPoints.push_back(index1);
-            pointMap->insert(del.circumcenters[index1], cellIndex);
 
             if(t1!=-1){
                 edge = del.edges[del.triangles[t1].nextEdge(index, edge, del.edgeMap)];
@@ -78,7 +74,6 @@ DelaunayToVoronoi::DelaunayToVoronoi(DelaunayInfo& del) {
                 del.circumcenters[regionIndex].setBoundary();
 
                 cellPoints.push_back(regionIndex);
-                pointMap->insert(del.circumcenters[regionIndex], cellIndex);
 
                 IndexSegment e1(lastPoint, regionIndex);
                 IndexSegment e2(regionIndex, firstPoint);
@@ -94,6 +89,11 @@ DelaunayToVoronoi::DelaunayToVoronoi(DelaunayInfo& del) {
         std::vector<Point>& pointList = del.circumcenters.getList();
         std::vector<int>& cellPointsList = cellPoints.getList();
 
+        //Each vertex only once, however many edges of the cell it ends
+        for(int vertex : cellPointsList){
+            pointMap->insert(pointList[vertex], cellIndex);
+        }
+
         Polygon p = Polygon(cellPointsList, pointList);
         p.fixCCW(pointList);
 
-- 
2.43.0


From 98e8d0eb3ff638c01dfe8c51399f3cfa3a23e9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 40/40] fix: cutting a hole flush with an edge of the outline
 could leave a wrong outline (clipping error corrected upstream in 6.4.2)

---
 delynoi/src/models/hole/clipper/lib/clipper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/hole/clipper/lib/clipper.cpp b/delynoi/src/models/hole/clipper/lib/clipper.cpp
index 177f34e..4a03a48 100644
--- a/delynoi/src/models/hole/clipper/lib/clipper.cpp
+++ b/delynoi/src/models/hole/clipper/lib/clipper.cpp
@@ -1866,7 +1866,7 @@ OutPt* Clipper::AddLocalMinPoly(TEdge *e1, TEdge *e2, const IntPoint &Pt)
         prevE = e->PrevInAEL;
   }
 
-  if (prevE && prevE->OutIdx >= 0)
+  if (prevE && prevE->OutIdx >= 0 && prevE->Top.Y < Pt.Y && e->Top.Y < Pt.Y)
   {
     cInt xPrev = TopX(*prevE, Pt.Y);
     cInt xE = TopX(*e, Pt.Y);
-- 
2.43.0

