// P12 polygon metrics, P13 primitives, P17 triangulators, P24 hulls and circumcentres
#include "meshcheck.h"
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/models/basic/IndexSegment.h>
#include <delynoi/models/basic/Angle.h>
#include <delynoi/utilities/convexHull.h>
#include <delynoi/utilities/geometryFunctions.h>
#include <delynoi/triangulation/EarTriangulationGenerator.h>
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/triangulation/DelaunayTriangulationGenerator.h>

static R maxAbs(const Poly& p) { R m = 1; for (auto& v : p) m = std::max(m, std::max(fabsl(v.x), fabsl(v.y))); return m; }
static R extent(const Poly& p) { R m = 0; for (auto& v : p) m = std::max(m, dist(v, p[0])); return m; }
static bool dyadic(const Poly& p) { for (auto& v : p) for (R x : {v.x, v.y}) if (fabsl(x) > 8192 || x * 1024 != roundl(x * 1024)) return false; return true; }

struct Held { Polygon poly; std::vector<Point> pool; std::vector<int> idx; Poly P; };
static Held makeHeld(Ctx& c, const Poly& P) {
    Held h; h.P = P; int pre = c.s.range(0, 3); bool indexed = c.s.chance(60);
    if (indexed) {
        for (int i = 0; i < pre; ++i) h.pool.push_back(Point(c.s.range(-20, 20), c.s.range(-20, 20)));
        std::vector<int> order; for (size_t i = 0; i < P.size(); ++i) order.push_back((int)i); if (c.s.chance(50)) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.s.range(0, (int)i - 1)]);
        h.idx.resize(P.size()); for (int i : order) { h.idx[i] = (int)h.pool.size(); h.pool.push_back(toP(P[i])); if (c.s.chance(10)) h.pool.push_back(Point(c.s.range(-20, 20), c.s.range(-20, 20))); }
        h.poly = Polygon(h.idx, h.pool);
    } else { h.pool = toPts(P); h.idx.resize(P.size()); for (size_t i = 0; i < P.size(); ++i) h.idx[i] = (int)i; h.poly = Polygon(h.pool); }
    return h;
}
static void queryOne(Ctx& c, Held& h, int q) {
    const Poly& P = h.P; size_t n = P.size(); R M = maxAbs(P), D = extent(P), A = sarea(P); R tolA = (1e-12L * D + 1e-15L * M) * D * n + 1e-12L; // what is asked depends on the distances between vertices, not on how far away they are
    const char* names[] = {"area", "signedArea", "centroid", "diameter", "maxDistance", "average", "isConvex", "isClockwise", "edges", "vertices", "selfIntersecting", "index"}; c.desc << " " << names[q];
    R dm = 0; if (q == 3 || q == 4) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) dm = std::max(dm, dist(P[i], P[j]));
    switch (q) {
    case 0: { R a = h.poly.getArea(h.pool); CHECK(fabsl(fabsl(a) - fabsl(A)) <= tolA, "getArea is " << a << ", the polygon's area is " << fabsl(A)); if (A > 0) CHECK(a > 0, "getArea of a counter-clockwise polygon is " << a); break; }
    case 1: { R a = h.poly.signedArea(h.pool); CHECK(fabsl(a - A) <= tolA, "signedArea is " << a << ", expected " << A); break; }
    case 2: { V g = toV(h.poly.getCentroid(h.pool)), w = centroid(P); CHECK(dist(g, w) <= 1e-9L * (1 + D) + 4e-15L * M + 1e-13L * D * D * D / fabsl(A), "centroid is " << show(g) << ", expected " << show(w)); break; }
    case 3: { R g = h.poly.getDiameter(h.pool); CHECK(fabsl(g - dm) <= 1e-11L * D + 1e-12L, "diameter is " << g << ", the largest vertex distance is " << dm); break; }
    case 4: { R g = h.poly.getMaxDistance(h.pool); CHECK(fabsl(g - dm) <= 1e-11L * D + 1e-12L, "maximum distance is " << g << ", expected " << dm); break; }
    case 5: { V g = toV(h.poly.getAverage(h.pool)), w; for (auto& v : P) w = w + v; w = w * (1.0L / n); CHECK(dist(g, w) <= 1e-15L * n * M + 1e-11L, "average is " << show(g) << ", expected " << show(w)); break; }
    case 6: { bool reflex = false, unclear = false, dy = dyadic(P); R s = A > 0 ? 1 : -1; for (size_t i = 0; i < n; ++i) { V a = P[i], b = P[(i + 1) % n], d = P[(i + 2) % n]; R o = s * orient(a, b, d), m = 1e-6L * dist(a, b) * dist(b, d); if (o < -m) reflex = true; else if (o < m && !(o == 0 && dy)) unclear = true; }
        bool g = h.poly.isConvex(h.pool); if (reflex) { CHECK(!g, "isConvex is true for a polygon with a reflex vertex"); c.label("reflex"); } else if (!unclear) { CHECK(g, "isConvex is false for a convex polygon"); c.label("convex"); } break; }
    case 7: CHECK(h.poly.isClockwise(h.pool) == (A < 0), "isClockwise is " << (A >= 0) << " for signed area " << A); break;
    case 8: for (int t = 0; t < 6; ++t) { int i = c.s.range(0, (int)n - 1), j = c.s.range(0, (int)n - 1); if (i == j) continue; bool w = (i + 1) % (int)n == j || (j + 1) % (int)n == i; IndexSegment s(h.idx[i], h.idx[j]); CHECK(h.poly.containsEdge(s) == w, "containsEdge of vertices " << i << "," << j << " of " << n << " is " << !w); }
        { IndexSegment s(h.idx[0], (int)h.pool.size() + 5); CHECK(!h.poly.containsEdge(s), "containsEdge accepts an index which is not of the polygon"); } break;
    case 9: { std::set<int> in(h.idx.begin(), h.idx.end()); for (int i = 0; i < (int)h.pool.size() + 2; ++i) CHECK(h.poly.isVertex(i) == (in.count(i) > 0), "isVertex(" << i << ") is wrong");
        CHECK(h.poly.numberOfSides() == (int)n, "numberOfSides is " << h.poly.numberOfSides()); const Polygon& cp = h.poly; CHECK(cp.getPoints() == h.idx, "getPoints is not the given vertex list");
        std::vector<Point> pp = h.poly.getPoints(h.pool); CHECK(pp.size() == n, "getPoints(points) has " << pp.size()); for (size_t i = 0; i < n; ++i) CHECK(toV(pp[i]).x == P[i].x && toV(pp[i]).y == P[i].y, "vertex " << i << " is " << show(toV(pp[i])));
        std::vector<IndexSegment> ss; h.poly.getSegments(ss); CHECK(ss.size() == n, "getSegments gives " << ss.size()); for (size_t i = 0; i < n; ++i) CHECK(ss[i].getFirst() == h.idx[i] && ss[i].getSecond() == h.idx[(i + 1) % n], "segment " << i << " is wrong");
        std::vector<int> again = h.idx; std::rotate(again.begin(), again.begin() + c.s.range(0, (int)n - 1), again.end()); Polygon same(again, h.pool); CHECK(h.poly == same && !(h.poly < same) && !(same < h.poly), "the polygon does not equal one with the same vertices");
        { int k = c.s.range(0, (int)n - 1), other = (int)h.pool.size() - 1; if (!in.count(other)) { again = h.idx; again[k] = other; Polygon q(again, h.pool); CHECK(!(h.poly == q) && (h.poly < q) != (q < h.poly), "the polygon equals one with another vertex instead of vertex " << k); } } break; }
    case 10: CHECK(!h.poly.isSelfIntersecting(h.pool), "isSelfIntersecting is true for a simple polygon"); break;
    default: { std::ostringstream w; w << n; for (int i : h.idx) w << " " << i; CHECK(h.poly.getString() == w.str(), "getString is \"" << h.poly.getString() << "\""); break; }
    }
}
static void resize(Ctx& c, Poly& p) { if (!c.s.chance(15)) return; R f = c.s.pick({0.01L, 0.02L, 0.1L, 30.0L}); R d = 1e9L; for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < i; ++j) d = std::min(d, dist(p[i], p[j])); if (d * f < 1e-3L) return; for (auto& v : p) v = dbl(v * f); c.label(f < 1 ? "tiny" : "huge"); }
static const std::vector<std::pair<std::pair<int, int>, std::pair<int, int>>>& sameHashSum() { // disjoint index pairs whose hashes have the same sum
    static std::vector<std::pair<std::pair<int, int>, std::pair<int, int>>> r; if (!r.empty()) return r;
    std::map<long long, std::pair<int, int>> by; std::vector<long long> h; for (int i = 0; i < 700; ++i) h.push_back(utilities::hash32(i));
    for (int i = 0; i < 700; ++i) for (int j = i + 1; j < 700; ++j) { auto in = by.insert({h[i] + h[j], {i, j}}); if (!in.second && in.first->second.first != i && in.first->second.second != j) r.push_back({in.first->second, {i, j}}); }
    if (r.empty()) r.push_back({{0, 1}, {2, 3}}); return r;
}
PROPERTY(P12, 500) {
    if (c.s.chance(2)) { // polygons of different vertices are different, whatever their hashes
        auto& l = sameHashSum(); auto& t = l[c.s.range(0, (int)l.size() - 1)]; int e = c.s.range(700, 710), k = c.s.range(0, 2); std::vector<Point> pool; for (int i = 0; i < 711; ++i) pool.push_back(Point(i, (i * 37) % 101)); std::vector<int> a = {t.first.first, t.first.second, e}, b = {t.second.first, t.second.second, e}, a2 = {a[2], a[1], a[0]}; std::rotate(a.begin(), a.begin() + k, a.end());
        c.desc << "polygons of vertices " << a[0] << "," << a[1] << "," << a[2] << " and " << b[0] << "," << b[1] << "," << b[2]; Polygon x(a, pool), y(b, pool), z(a2, pool); c.label("equal hash sums"); c.nontrivial = true;
        CHECK(!(x == y) && !(y == x) && (x < y) != (y < x), "polygons of different vertices compare equal"); CHECK(x == z && !(x < z) && !(z < x) && (x < y) == (z < y), "polygons of the same vertices compare different"); return; }
    if (c.s.chance(15)) {
        Poly p; if (!genCrossed(c, p)) { c.label("not-crossed"); return; } c.desc << "crossed " << show(p); c.label("self-intersecting"); c.nontrivial = true;
        std::vector<Point> pool = toPts(p); std::vector<int> idx; for (size_t i = 0; i < p.size(); ++i) idx.push_back((int)i);
        Polygon q(idx, pool); CHECK(q.isSelfIntersecting(pool), "isSelfIntersecting is false for a polygon with crossing edges"); return;
    }
    std::string kind; R k; Poly P = genSimple(c, kind, k); resize(c, P); c.desc << kind << " " << show(P); c.label("outline-" + kind.substr(0, kind.find('+')));
    std::vector<Held> held; held.push_back(makeHeld(c, P)); int n = c.s.range(3, 24), distinct = 0; std::set<int> kinds;
    for (int i = 0; i < n; ++i) {
        int at = c.s.range(0, (int)held.size() - 1); int t = c.s.weighted({12, 1, 1, 1});
        if (t == 0) { int q = c.s.range(0, 11); c.desc << " @" << at; queryOne(c, held[at], q); if (kinds.insert(q).second) ++distinct; }
        else if (t == 1) { if (held.size() < 4) { c.desc << " copy@" << at; if (c.s.chance(50)) { Held cp = held[at]; Polygon x(held[at].poly); cp.poly = x; held.push_back(cp); } else { Polygon tmp; tmp = held[at].poly; Held cp = held[at]; cp.poly = tmp; held.push_back(cp); } c.label("copied"); } }
        else if (t == 2) { Held& h = held[at]; c.desc << " fixCCW@" << at; h.poly.fixCCW(h.pool); if (sarea(h.P) < 0) { std::reverse(h.P.begin(), h.P.end()); std::reverse(h.idx.begin(), h.idx.end()); c.label("reversed"); }
            const Polygon& cp = h.poly; std::vector<int> g = cp.getPoints(), w = h.idx; CHECK(g.size() == w.size(), "fixCCW changed the number of vertices"); auto it = std::find(g.begin(), g.end(), w[0]); CHECK(it != g.end(), "fixCCW lost a vertex"); std::rotate(g.begin(), it, g.end()); CHECK(g == w, "fixCCW did not keep the cyclic order, or did not make it counter-clockwise");
            g = cp.getPoints(); int sh = (int)(std::find(w.begin(), w.end(), g[0]) - w.begin()); std::rotate(h.idx.begin(), h.idx.begin() + sh, h.idx.end()); std::rotate(h.P.begin(), h.P.begin() + sh, h.P.end()); }
        else { Held& h = held[at]; std::string kd; R k2; Poly Q = genSimple(c, kd, k2); resize(c, Q); c.desc << " mutate@" << at << show(Q); h.pool = toPts(Q); h.P = Q; h.idx.clear(); for (size_t j = 0; j < Q.size(); ++j) h.idx.push_back((int)j); h.poly.mutate(h.pool); c.label("mutated"); }
    }
    for (auto& h : held) for (int q = 0; q < 12; ++q) queryOne(c, h, q);
    c.nontrivial = distinct >= 3;
}

// ---------------------------------------------------------------- P13
struct OpenSeg : public PointSegment { OpenSeg(Point a, Point b) : PointSegment(a, b) {} bool infinite(Point o1, Point o2, Point& i) { return intersectionInfinite(p1, p2, o1, o2, i); } };
static bool angleIs(R g, R w) { R d = fmodl(fabsl(g - w), 360); return std::min(d, 360 - d) < 1e-9L; }
PROPERTY(P13, 120) {
    R off = c.s.pick({0.0, 0.0, 10.0, -300.0, 900.0, 0.0, 10.0, -300.0, 900.0, 4.1e5, -1e6}); if (fabsl(off) > 1e4L) c.label("far from the origin"); int q = c.s.pick({1, 4, 0}); auto pt = [&]() { V v(c.s.range(-100, 100) / 8.0L, c.s.range(-100, 100) / 8.0L); if (!q) v = V(c.s.real(-12, 12), c.s.real(-12, 12)); return dbl(v + V(off, -off / 2)); };
    V a = pt(), b = pt(); int shape = c.s.range(0, 5); if (c.s.chance(15)) b.x = a.x; else if (c.s.chance(15)) b.y = a.y; if (dist(a, b) < 0.1L) b = dbl(a + V(1, 0.5L)); V p, r; V u = b - a;
    switch (shape) {
    case 0: p = pt(); r = pt(); break;
    case 1: { V m = a + u * (c.s.range(1, 15) / 16.0L); V w = pt() - V(off, -off / 2); p = dbl(m - w * c.s.real01()); r = dbl(m + w * (0.1L + c.s.real01())); break; }       // crossing at an interior point
    case 2: p = dbl(a + u * (c.s.range(0, 16) / 16.0L)); r = pt(); break;                                                                                  // touching with an end (T or common end)
    case 3: p = c.s.chance(50) ? a : b; r = pt(); break;
    case 4: { V m = a + u * (c.s.chance(50) ? 1.0L + 0.001L + 0.1L * c.s.real01() : -0.001L - 0.1L * c.s.real01()); V w = pt() - V(off, -off / 2); p = dbl(m - w); r = dbl(m + w); break; } // just misses an end
    default: { V m = a + u * c.s.real01(); V w = V(-u.y, u.x) * (c.s.chance(50) ? 1 : -1) + u * c.s.real(-0.5, 0.5); p = dbl(m + w * (0.002L + 0.05L * c.s.real01())); r = dbl(m + w * 1.5L); break; } // stops just short
    }
    if (dist(p, r) < 0.1L) r = dbl(p + V(0.5L, 1));
    if (c.s.chance(30)) std::swap(a, b); if (c.s.chance(30)) std::swap(p, r); u = b - a; V w = r - p;
    c.desc << "segments " << show(a) << show(b) << " and " << show(p) << show(r); const char* sn[] = {"any", "crossing", "T", "common-end", "misses-end", "stops-short"}; c.label(std::string("pair-") + sn[shape]);
    std::vector<Point> P = {Point(77, 77), toP(a), toP(b), toP(p), toP(r), Point(-5, 3)}; R M = 1, D = 1; for (V v : {a, b, p, r}) { M = std::max(M, std::max(fabsl(v.x), fabsl(v.y))); D = std::max(D, 2 * dist(v, a)); } R T = 1e-11L * D * D + 1e-15L * M * D;
    PointSegment s1(toP(a), toP(b)), s2(toP(p), toP(r)); IndexSegment i1(1, 2), i2(3, 4);
    // length, middle, angle
    R L = dist(a, b); CHECK(fabsl(s1.length() - L) <= 1e-12L * L, "length is " << s1.length()); CHECK(fabsl(i1.length(P) - L) <= 1e-12L * L, "indexed length is " << i1.length(P));
    CHECK(dist(toV(i1.middlePoint(P)), (a + b) * 0.5L) <= 1e-12L * D + 1e-15L * M, "middle point is " << show(toV(i1.middlePoint(P))));
    R ang = atan2l(u.y, u.x) * 180 / M_PIl; for (R g : {(R)s1.cartesianAngle(), (R)i1.cartesianAngle(P)}) CHECK(angleIs(g, ang), "angle of " << show(a) << show(b) << " is " << g << ", expected " << ang);
    // vectors and orientation
    { Point d = toP(b) - toP(a); CHECK((R)d.getX() == (R)((double)b.x - (double)a.x) && (R)d.getY() == (R)((double)b.y - (double)a.y), "difference of points"); Point pa = toP(a), pb = toP(b), pp = toP(p);
      CHECK(fabsl(delynoi_utilities::crossProduct(pa, pb) - cross(a, b)) <= 1e-12L * M * M, "cross product"); CHECK(fabsl(delynoi_utilities::squareNorm(pa) - dot(a, a)) <= 1e-12L * M * M, "square norm"); CHECK(fabsl(delynoi_utilities::norm(pa) - len(a)) <= 1e-12L * len(a), "norm"); CHECK(fabsl(pa.squareNorm() - dot(a, a)) <= 1e-12L * M * M, "Point::squareNorm");
      R o = orient(a, b, p); CHECK(fabsl(delynoi_utilities::orientation(pa, pb, pp) - o) <= T, "orientation is " << delynoi_utilities::orientation(pa, pb, pp) << ", expected " << o); CHECK(fabsl(geometry_functions::area2(pa, pb, pp) - o) <= T, "area2"); CHECK(fabsl(geometry_functions::triangleArea(pa, pb, pp) - o / 2) <= T, "triangleArea");
      std::vector<Point> tri = {pa, pb, pp}; CHECK(fabsl(geometry_functions::area(tri) - o / 2) <= T, "area of a point list"); std::vector<int> ix = {1, 2, 3}; CHECK(fabsl(geometry_functions::area(P, ix) - o / 2) <= T, "area of indexed points");
      if (fabsl(o) > 1e-6L) { CHECK(i1.isCCW(P, pp) == (o > 0), "isCCW is " << !(o > 0)); IndexSegment t = i1; t.orderCCW(P, pp); CHECK(t.isCCW(P, pp), "orderCCW left the segment clockwise"); CHECK((t.getFirst() == 1 && t.getSecond() == 2) == (o > 0) && t == i1, "orderCCW turned the segment around wrongly"); }
      if (fabsl(o) > 1e-4L) CHECK(!geometry_functions::collinear(pa, pb, pp), "collinear is true for area2 " << o);
      R o2 = orient(a, b, r); if (fabsl(o) > 1e-4L || fabsl(o2) > 1e-4L) CHECK(!geometry_functions::collinear(s1, s2), "collinear is true for segments off each other's line"); }
    { V m = dbl(a + u * (c.s.range(-32, 48) / 16.0L)), m2 = dbl(a + u * (c.s.range(-32, 48) / 16.0L)); CHECK(geometry_functions::collinear(toP(a), toP(b), toP(m)), "collinear is false for a point on the line"); PointSegment t(toP(m), toP(m2)); CHECK(geometry_functions::collinear(s1, t), "collinear is false for segments on a line"); }
    // containment
    auto contained = [&](V x, bool& in) { R f = dot(x - a, u) / (L * L); R off2 = fabsl(orient(a, b, x)); R exact = 5e-6L, over = std::max(-f, f - 1) * L; if (off2 <= exact && over <= 1e-12L * D) { in = true; return true; } if (off2 <= 5e-6L && over > 0 && over < 6e-6L && dist(x, f < 0 ? a : b) < 9e-6L) { in = true; return true; } if (off2 > 5e-5L || over > 3e-5L) { in = false; return true; } return false; };
    std::vector<V> qs = {a, b, p, r}; for (int i = 0; i < 5; ++i) { R f = c.s.range(-16, 80) / 64.0L; qs.push_back(dbl(a + u * f)); qs.push_back(dbl(a + u * f + V(-u.y, u.x) * (c.s.pick({0.001L, -0.01L, 0.1L, -0.5L, 7e-5L / L, -9e-5L / L}) / L))); } for (R e : {5e-6L, 5e-5L, 2e-3L}) { bool low = c.s.chance(50); qs.push_back(dbl(low ? a - u * (e / L) : b + u * (e / L))); }
    for (auto& x : qs) { bool in; if (!contained(x, in)) continue; Point xp = toP(x); CHECK(s1.contains(xp) == in, "PointSegment::contains(" << show(x) << ") is " << !in); CHECK(i1.contains(P, xp) == in, "IndexSegment::contains(" << show(x) << ") is " << !in); }
    for (size_t t = 0; t + 1 < qs.size(); ++t) { bool in1, in2; if (!contained(qs[t], in1) || !contained(qs[t + 1], in2)) continue; std::vector<Point> Q = P; Q.push_back(toP(qs[t])); Q.push_back(toP(qs[t + 1])); IndexSegment sub(6, 7); CHECK(i1.contains(Q, sub) == (in1 && in2), "IndexSegment::contains(segment " << show(qs[t]) << show(qs[t + 1]) << ") is wrong"); CHECK(sub.isContained(s1, Q) == (in1 && in2), "isContained is wrong"); }
    // intersection
    R den = cross(u, w), sn_ = fabsl(den) / (L * dist(p, r));
    if (sn_ > 2e-3L) {
        R t = cross(p - a, w) / den, s = cross(p - a, u) / den; auto zone = [&](R x) { if (x < -4e-5L || x > 1 + 4e-5L) return -1; R e = std::min(fabsl(x), fabsl(x - 1)); if (x > 0 && x < 1 && e > 1e-9L) return 1; if (e <= 1e-9L) return 1; return 0; };
        int zt = zone(t), zs = zone(s); c.label(zt > 0 && zs > 0 ? "meets" : "apart");
        auto onBoth = [&](Point x, const char* n) { V g = toV(x); R tol = 1e-4L; CHECK(distPS(g, a, b) <= tol && distPS(g, p, r) <= tol, n << ": reported intersection " << show(g) << " is not on both segments"); CHECK(dist(g, a + u * t) <= 1e-9L * D / sn_ + 1e-14L * M / sn_, n << ": reported intersection " << show(g) << ", expected " << show(a + u * t)); };
        if (zt && zs) {
            bool want = zt > 0 && zs > 0; if (want) c.nontrivial = true;
            Point x(0, 0); bool g = i1.intersection(P, i2, x); CHECK(g == want, "indexed segments " << (want ? "meet" : "do not meet") << " (t=" << t << ", s=" << s << ") but intersection() says otherwise"); if (g) onBoth(x, "intersection");
            Point y(0, 0); g = i1.intersection(P, s2, y); CHECK(g == want, "intersection with a point segment is " << g); if (g) onBoth(y, "intersection");
            Point z(0, 0); g = i2.intersection(P, i1, z); CHECK(g == want, "intersection is not symmetric"); if (g) onBoth(z, "intersection");
        }
        if (zt) { OpenSeg os(toP(a), toP(b)); Point x(0, 0); bool g = os.infinite(toP(p), toP(r), x); CHECK(g == (zt > 0), "intersection with the infinite line is " << g << " for t=" << t); if (g) CHECK(dist(toV(x), a + u * t) <= 1e-9L * D / sn_ + 1e-14L * M / sn_, "intersection with the infinite line is " << show(toV(x)) << ", expected " << show(a + u * t)); }
    } else c.label("parallel"), c.nontrivial = true;
    if (c.s.chance(30)) { // long segments far away, and points which are on them exactly
        V o(c.s.pick({0.0, 1e5, -4.5e5, 4.5e6}), c.s.pick({0.0, -1e5, 6e5, 5e6})), A = o + V(c.s.range(-80, 80) / 8.0L, c.s.range(-80, 80) / 8.0L), U(c.s.range(-8000, 8000), c.s.range(-8000, 8000)), Q = A + U * (c.s.range(0, 64) / 64.0L); if (c.s.chance(20)) U.x = 0, Q.x = A.x;
        if (len(U) > 1) { V B = A + U, N = V(-U.y, U.x) * (1 / len(U)); PointSegment g(toP(A), toP(B)); std::vector<Point> l = {toP(A), toP(B)}; IndexSegment gi(0, 1); c.label("long segment far away");
            CHECK(g.contains(toP(Q)) && gi.contains(l, toP(Q)), "the segment " << show(A) << show(B) << " does not contain its point " << show(Q)); for (R e : {1e-3L, -0.05L}) { V X = dbl(Q + N * e); if (fabsl(orient(A, B, X)) > 5e-5L) CHECK(!g.contains(toP(X)) && !gi.contains(l, toP(X)), "the segment " << show(A) << show(B) << " contains " << show(X)); } } }
    // equality and hashing
    { int e = c.s.range(0, 50), f = c.s.range(0, 50); IndexSegment x(e, f), y(f, e), z(e, f + 1); CHECK(x == y && x == x, "segment equality depends on direction"); CHECK(x.hash == y.hash, "segment hash depends on direction"); if (f + 1 != e || true) CHECK((x == z) == false || (e == f + 1 && f == e), "different index segments are equal"); IndexSegment cp(x); CHECK(cp == x && cp.hash == x.hash && cp.getFirst() == e && cp.getSecond() == f, "copy of an index segment"); int by = c.s.range(0, 60); IndexSegment ad = x.add(by), as(f + by, e + by); CHECK(ad.getFirst() == e + by && ad.getSecond() == f + by && ad == as && ad.hash == as.hash, "segment moved by " << by << " indices does not equal and hash like the segment of those indices"); { IndexSegment t = x; std::vector<Point> two(60, Point(0, 0)); two[e] = Point(1, 0); two[f] = Point(0, 1); t.orderCCW(two, Point(-3, -3)); CHECK(t == x && t.hash == x.hash && !(t < x && x < t), "a segment turned around does not equal or hash like itself"); SegmentMap sm; sm.insert(x, 3); sm.insert(t, 5); CHECK(sm.size() == 1 && sm.containsSegment(t), "a segment turned around is another entry of a segment map"); sm.insert(ad, 8); CHECK(sm.containsSegment(as) && sm.size() == (by ? 2 : 1), "a moved segment is not found in a segment map"); } CHECK(x.isVertex(e) && x.isVertex(f) && !x.isVertex(99), "isVertex");
      CHECK((x < z) || e > e, "order of index segments"); IndexSegment lo(e, f), hi(e + 1, f - 1); CHECK(lo < hi && !(hi < lo) && !(lo < lo), "order of index segments");
      PointSegment t1(toP(a), toP(b)), t2(toP(b), toP(a)), t3(toP(a), toP(p)); CHECK(t1 == t2 && t1 == t1, "point segment equality depends on direction"); if (dist(b, p) > 1e-3L && dist(a, p) > 1e-3L) CHECK(!(t1 == t3), "different point segments are equal"); CHECK(t1.isVertex(toP(b)) && (dist(p, a) < 1e-3L || dist(p, b) < 1e-3L || !t1.isVertex(toP(p))), "isVertex of a point segment"); }
    { R t = 1e-5L; R dx = c.s.pick({0.0L, 0.5L, -0.9L, 1.1L, 3.0L, -1e5L}) * t, dy = c.s.pick({0.0L, 0.5L, -0.9L, 1.1L, -3.0L, 1e5L}) * t; V b2 = dbl(a + V(dx, dy)); R rx = fabsl(b2.x - a.x), ry = fabsl(b2.y - a.y); if (fabsl(rx - t) > 1e-7L * t + 1e-12L && fabsl(ry - t) > 1e-7L * t + 1e-12L) { bool eq = rx < t && ry < t; Point x = toP(a), y = toP(b2); CHECK((x == y) == eq && (y == x) == eq, "points " << rx << "," << ry << " apart: equality is " << (x == y)); bool lt = rx < t ? (ry < t ? false : a.y < b2.y) : a.x < b2.x; CHECK((x < y) == lt, "order of points"); CHECK(!(x < y && y < x) && ((x < y) || (y < x) || eq), "order of points is not total"); } }
    { R x = c.s.real(-720, 720), y = c.s.real(-720, 720); Angle ax((double)x), ay((double)y); auto mod = [](R v) { return v - 180 * floorl(v / 180); }; CHECK(fabsl(ax.angle - mod((double)x)) < 1e-9L && ax.angle >= 0 && ax.angle <= 180, "Angle(" << x << ") is " << ax.angle); if (fabsl(mod(x) - mod(y)) > 3e-5L) CHECK((ax < ay) == (mod(x) < mod(y)), "order of angles"); }
}

// ---------------------------------------------------------------- P17
PROPERTY(P17, 300) {
    int which = c.s.range(0, 2); Poly P; R k; std::string kind;
    if (which < 2 && c.s.chance(4)) { int n = c.s.range(50, 130); for (int i = 0; i < n; ++i) { double a = 2 * M_PI * (i + 0.5 * c.s.real01()) / n, r = 20 + 20 * c.s.real01(); P.push_back(quant(V(r * cos(a), r * sin(a)), 4096)); } if (c.s.chance(50)) std::reverse(P.begin(), P.end()); k = 4; kind = "many-sided star"; c.label("many-sided"); }
    else if (which == 0) { P = genSimple(c, kind, k); }
    else if (which == 1) { DomainOpts o; o.maxHoles = 0; o.subdivide = false; o.maxTranslate = 300; Domain d = genDomain(c, o); P = d.outline; k = d.scale; kind = d.kind; }
    else { DomainOpts o; o.maxHoles = 0; o.nonconvex = false; o.subdivide = false; o.maxTranslate = 300; Domain d = genDomain(c, o); P = d.outline; k = d.scale; kind = d.kind; if (minAngle(P) > 179) return; bool cv = true; R s = sarea(P) > 0 ? 1 : -1; for (size_t i = 0; i < P.size(); ++i) if (s * orient(P[i], P[(i + 1) % P.size()], P[(i + 2) % P.size()]) < 1e-6L) cv = false; if (!cv) { c.label("not-convex"); return; } }
    for (size_t i = 0; i < P.size() && which == 1; ++i) { V a = P[i], b = P[(i + 1) % P.size()], d = P[(i + 2) % P.size()]; if (fabsl(orient(a, b, d)) < 1e-3L * dist(a, b) * dist(b, d)) { c.label("collinear"); return; } }
    Held h = makeHeld(c, P); c.desc << (which == 0 ? "ear " : which == 1 ? "delaunay " : "center ") << kind << show(P) << " indices"; for (int i : h.idx) c.desc << " " << i; c.label(which == 0 ? "ear" : which == 1 ? "delaunay" : "center");
    { std::vector<int> t3 = {h.idx[0], h.idx[1], h.idx[2]}; Triangle one(t3, h.pool); EarTriangulationGenerator e; TriangulationGenerator& tg = e; std::vector<Triangle> r = tg.triangulate(one, h.pool); CHECK(r.size() == 1 && ((const Triangle&)r[0]).getPoints() == t3, "a triangle is not its own triangulation"); }
    std::vector<Point> before = h.pool; std::vector<int> idxBefore = h.idx; Polygon given = h.poly; size_t n = P.size(); std::vector<Triangle> ts;
    auto used = [&](TriangulationGenerator& g) { if (c.s.chance(30)) { std::vector<Point> op = {Point(0, 0), Point(4, 0), Point(5, 3), Point(0, 3), Point(-1, 1)}; Polygon other(op); g.triangulate(other, op); c.label("generator used before"); } ts = g.triangulate(h.poly, h.pool); };
    if (which == 0) { EarTriangulationGenerator g; used(g); } else if (which == 1) { DelaunayTriangulationGenerator g; used(g); } else { CenterTriangulationGenerator g; used(g); }
    std::set<int> allowed(h.idx.begin(), h.idx.end());
    if (which == 2) { CHECK(h.pool.size() == before.size() + 1, "the centre was not appended to the points"); V w; for (auto& v : P) w = w + v; w = w * (1.0L / n); CHECK(dist(toV(h.pool.back()), w) < 1e-15L * n * maxAbs(P) + 1e-10L, "the appended centre " << show(toV(h.pool.back())) << " is not the vertex average " << show(w)); allowed.insert((int)before.size()); CHECK(ts.size() == n, ts.size() << " triangles for " << n << " sides"); }
    else { CHECK(h.pool.size() == before.size(), "the number of points changed"); CHECK(ts.size() == n - 2, ts.size() << " triangles for " << n << " vertices"); }
    for (size_t i = 0; i < before.size(); ++i) CHECK(h.pool[i].getX() == before[i].getX() && h.pool[i].getY() == before[i].getY(), "point " << i << " of the list changed");
    { const Polygon& cp = h.poly; CHECK(cp.getPoints() == idxBefore, "the polygon changed"); }
    std::vector<Poly> tp; R tot = 0; R A = parea(P), D = extent(P); bool exact = true; for (auto& v : P) for (R x : {v.x, v.y}) if (fabsl(x) > 8192 || x * 4096 != roundl(x * 4096)) exact = false; if (exact) c.label("exact coordinates"); std::vector<BB> bb; std::set<std::vector<int>> seen;
    for (auto& t : ts) {
        const Triangle& ct = t; std::vector<int> v = ct.getPoints(); CHECK(v.size() == 3, "triangle with " << v.size() << " vertices"); Poly q; for (int i : v) { CHECK(allowed.count(i), "triangle uses index " << i << " which is not a vertex of the polygon"); q.push_back(toV(h.pool[i])); }
        std::vector<int> key = v; std::sort(key.begin(), key.end()); CHECK(key[0] != key[1] && key[1] != key[2], "triangle repeats a vertex"); CHECK(seen.insert(key).second, "a triangle occurs twice"); R a = parea(q); if (which != 0 || exact) CHECK(a > 1e-12L * D * D, "triangle " << show(q) << " has no area"); /* ears may be slivers where remaining vertices are collinear up to rounding */ CHECK(sarea(q) * (which == 2 ? sarea(P) : 1) > -1e-12L * D * D * (which == 2 ? fabsl(sarea(P)) : 1), "triangle " << show(q) << (which == 2 ? " is not oriented like the polygon" : " is clockwise")); tot += a; tp.push_back(q); bb.push_back(BB(q));
        for (int e = 0; e < 3; ++e) { V m = (q[e] + q[(e + 1) % 3]) * 0.5L; CHECK(locate(m, P, 1e-6L * k) >= 0, "triangle edge " << show(q[e]) << show(q[(e + 1) % 3]) << " leaves the polygon"); }
        if (a > 1e-6L) CHECK(locate(centroid(q), P, 1e-9L) >= 0, "triangle " << show(q) << " is outside of the polygon");
    }
    CHECK(fabsl(tot - A) <= 1e-11L * D * D * n, "the triangles have total area " << tot << ", the polygon has " << A);
    V lo = P[0], hi = P[0]; for (auto& v : P) { lo.x = std::min(lo.x, v.x); lo.y = std::min(lo.y, v.y); hi.x = std::max(hi.x, v.x); hi.y = std::max(hi.y, v.y); }
    for (int i = 0; i < 20; ++i) { V q(c.s.real((double)lo.x, (double)hi.x), c.s.real((double)lo.y, (double)hi.y)); int w = locate(q, P, 1e-6L * k); int st = 0, cl = 0; for (size_t j = 0; j < tp.size(); ++j) if (bb[j].has(q, 1e-6L)) { int l = locate(q, tp[j], 1e-7L * k); st += l > 0; cl += l >= 0; } if (w > 0) CHECK(st <= 1 && cl >= 1, "point " << show(q) << " of the polygon is inside " << st << " triangles"); if (w < 0) CHECK(st == 0, "point " << show(q) << " outside of the polygon is in a triangle"); }
    for (size_t j = 0; j < tp.size(); ++j) { if (parea(tp[j]) < 1e-6L) continue; V q = centroid(tp[j]); for (size_t l = 0; l < tp.size(); ++l) if (l != j) CHECK(locate(q, tp[l], 1e-9L) <= 0, "triangles " << j << " and " << l << " overlap"); }
    c.nontrivial = n > 3; if (h.pool.size() > n + 1) c.label("unrelated-points"); bool cw = sarea(P) < 0; if (cw) c.label("clockwise");
}

// ---------------------------------------------------------------- P24
PROPERTY(P24, 250) {
    if (c.s.chance(60)) {
        std::vector<V> pts; std::set<std::pair<double, double>> seen; int n = c.s.range(3, 30), t = c.s.range(0, 3), w = c.s.range(2, 12); R off = c.s.pick({0.0, 100.0, -1000.0, 0.0, 100.0, 3e6});
        for (int i = 0; i < n; ++i) { V v; if (t == 0) v = V(c.s.range(-w, w), c.s.range(-w, w)); else if (t == 1) v = V(c.s.real(-10, 10), c.s.real(-10, 10)); else if (t == 2) v = V(c.s.range(-2, 2), c.s.range(-w, w)); else { int a = c.s.range(0, 23); v = V(roundl(16 * cosl(a * M_PIl / 12)), roundl(16 * sinl(a * M_PIl / 12))); } v = dbl(v + V(off, off)); if (seen.insert({(double)v.x, (double)v.y}).second) pts.push_back(v); }
        bool line = true; for (size_t i = 2; i < pts.size(); ++i) if (fabsl(orient(pts[0], pts[1], pts[i])) > 1e-9L) line = false; if (pts.size() < 3 || line) { c.label("on-a-line"); return; }
        if (t == 1) for (size_t i = 0; i < pts.size(); ++i) for (size_t j = 0; j < i; ++j) { if (fabsl(pts[i].x - pts[j].x) < 1e-6L) return; for (size_t l = 0; l < j; ++l) if (fabsl(orient(pts[i], pts[j], pts[l])) < 1e-6L) { c.label("near-collinear"); return; } }
        c.desc << "points " << show(Poly(pts)); c.label(t == 0 ? "lattice" : t == 1 ? "real" : t == 2 ? "columns" : "ring"); c.nontrivial = pts.size() > 3;
        // hull by definition: v is a hull vertex iff it is not in the closed segment or triangle of others; here: directed edges with all points on one side, collinear interior points dropped
        std::sort(pts.begin(), pts.end(), [](V a, V b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
        std::map<int, int> next; for (size_t i = 0; i < pts.size(); ++i) for (size_t j = 0; j < pts.size(); ++j) if (i != j) { bool ok = true; for (size_t l = 0; l < pts.size() && ok; ++l) if (l != i && l != j) { R o = orient(pts[i], pts[j], pts[l]); if (o < 0) ok = false; if (o == 0 && dot(pts[l] - pts[i], pts[l] - pts[j]) > 0) ok = false; } if (ok) next[(int)i] = (int)j; }
        std::vector<V> lower, upper; int last = (int)pts.size() - 1; for (int i = 0;; i = next[i]) { lower.push_back(pts[i]); if (i == last || lower.size() > pts.size()) break; } for (int i = last;; i = next[i]) { upper.push_back(pts[i]); if (i == 0 || upper.size() > pts.size()) break; } std::reverse(upper.begin(), upper.end());
        std::vector<Point> in; std::vector<V> sh = pts; for (size_t i = sh.size(); i > 1; --i) std::swap(sh[i - 1], sh[c.s.range(0, (int)i - 1)]); in = toPts(sh); std::vector<Point> in2 = in, u, l; convex::convexHull(in, u, l);
        auto same = [&](const std::vector<Point>& g, const std::vector<V>& w2, const char* n2) { CHECK(g.size() == w2.size(), n2 << " hull is " << show(toPoly(g)) << ", expected " << show(Poly(w2))); for (size_t i = 0; i < g.size(); ++i) CHECK(toV(g[i]).x == w2[i].x && toV(g[i]).y == w2[i].y, n2 << " hull is " << show(toPoly(g)) << ", expected " << show(Poly(w2))); };
        same(u, upper, "upper"); same(l, lower, "lower");
        std::vector<V> hull = lower; hull.insert(hull.end(), upper.begin(), upper.end()); auto isHull = [&](V v) { for (auto& x : hull) if (x.x == v.x && x.y == v.y) return true; return false; };
        R far = 0, got = 0; for (auto& x : hull) for (auto& y : hull) far = std::max(far, dist(x, y)); for (auto& pr : convex::rotatingCalipers(in2)) { V x = toV(pr.first), y = toV(pr.second); CHECK(isHull(x) && isHull(y), "antipodal pair " << show(x) << show(y) << " is not made of hull vertices"); got = std::max(got, dist(x, y)); }
        CHECK(fabsl(far - got) <= 1e-8L, "the farthest antipodal pair is " << got << " apart, the farthest points are " << far);
    } else {
        int n = c.s.range(1, 6); UniqueList<Point> centres; std::vector<Point> vcentres; std::vector<Point> pool; std::vector<std::pair<V, int>> known; c.label("triangles"); R off = c.s.pick({0.0, 0.0, 50.0, -400.0, 0.0, 0.0, 50.0, -400.0, 1e5, -3e6}), f = c.s.pick({1.0, 1.0, 0.05, 0.01, 30.0, 0.002}); int nc = 0; if (f != 1) c.label("scaled"); if (fabsl(off) > 1e4L) c.label("far from the origin");
        for (int i = 0; i < n; ++i) {
            V a, b, d; R r; V ctr;
            if (c.s.chance(40) && !known.empty()) { auto& kn = known[c.s.range(0, (int)known.size() - 1)]; ctr = kn.first; r = f * (1 + 5 * c.s.real01()); R t1 = 6.28L * c.s.real01(), t2 = t1 + 0.6L + c.s.real01(), t3 = t2 + 0.6L + c.s.real01(); a = dbl(ctr + V(r * cosl(t1), r * sinl(t1))); b = dbl(ctr + V(r * cosl(t2), r * sinl(t2))); d = dbl(ctr + V(r * cosl(t3), r * sinl(t3))); c.label("shared-circumcentre"); }
            else { auto pt = [&]() { return dbl(V(off + f * c.s.range(-100, 100) / 8.0L, f * c.s.range(-100, 100) / 8.0L - off)); }; a = pt(); b = pt(); d = pt(); }
            if (dist(a, b) < 0.3L * f || dist(b, d) < 0.3L * f || dist(a, d) < 0.3L * f || minAngle({a, b, d}) < 4) continue; if (c.s.chance(50)) std::swap(a, b);
            c.desc << " triangle " << show(Poly{a, b, d}); c.nontrivial = true;
            V A = a - d, B = b - d; R D = 2 * cross(A, B); V cc = d + V((B.y * dot(A, A) - A.y * dot(B, B)) / D, (A.x * dot(B, B) - B.x * dot(A, A)) / D); R RR = dist(cc, a); R M = std::max((R)1, std::max(std::max(len(a), len(b)), len(d))); R E = std::max(len(A), len(B)); R tol = 1e-9L * (1 + RR) + 4e-15L * M + 1e-13L * E * E * E / (fabsl(D) / 2);
            if (tol > 2e-6L) continue; int same = -1; bool unclear = false; for (auto& kn : known) { R e = std::max(fabsl(kn.first.x - cc.x), fabsl(kn.first.y - cc.y)); if (e < 4e-6L) same = kn.second; else if (e < 1e-3L) unclear = true; } if (unclear) continue;
            int base = (int)pool.size(); for (V v : {a, b, d}) pool.push_back(toP(v)); std::vector<int> ix = {base, base + 1, base + 2}; int p0 = c.s.range(0, 2); std::rotate(ix.begin(), ix.begin() + p0, ix.end());
            Triangle t1(ix, pool), t2(ix, pool, centres), t3(ix, pool, vcentres); ++nc;
            for (Triangle* t : {&t1, &t2, &t3}) { V g = toV(t->getCircumcenter()); CHECK(dist(g, cc) <= tol, "circumcentre is " << show(g) << ", expected " << show(cc)); for (V v : {a, b, d}) CHECK(fabsl(dist(g, v) - RR) <= 2 * tol, "circumcentre " << show(g) << " is not equidistant"); CHECK(!t->isNull(), "triangle is null"); }
            int id = t2.getCircumcenterIndex(); CHECK(id >= 0 && id < centres.size(), "circumcentre index " << id << " of " << centres.size()); CHECK(dist(toV(centres[id]), cc) <= tol + 1.5e-5L, "circumcentre " << id << " of the list is " << show(toV(centres[id])) << ", expected " << show(cc));
            if (same >= 0) CHECK(id == same, "a shared circumcentre is registered again as " << id << " instead of " << same); else { CHECK(id == (int)known.size() && centres.size() == (int)known.size() + 1, "a new circumcentre got index " << id << " in a list of " << centres.size()); known.push_back({cc, id}); }
            CHECK(centres.size() == (int)known.size(), "the list has " << centres.size() << " circumcentres, expected " << known.size()); CHECK(t3.getCircumcenterIndex() == nc - 1 && (int)vcentres.size() == nc && dist(toV(vcentres[nc - 1]), cc) <= tol, "circumcentre in the plain list");
            std::unordered_map<Key, int, KeyHasher> em; int val[3]; for (int e = 0; e < 3; ++e) { val[e] = 100 * (i + 1) + e; int x = ix[e], y = ix[(e + 1) % 3]; if (c.s.chance(50)) std::swap(x, y); em[Key(x, y)] = val[e]; }
            for (int e = 0; e < 3; ++e) for (int rev = 0; rev < 2; ++rev) { int x = ix[e], y = ix[(e + 1) % 3], z = ix[(e + 2) % 3]; EdgeData ed(rev ? y : x, rev ? x : y); CHECK(t2.thirdPoint(ed) == z, "third point of edge " << ed.p1 << "," << ed.p2 << " is " << t2.thirdPoint(ed) << ", expected " << z); CHECK(t2.nextEdge(x, ed, em) == val[(e + 2) % 3] && t2.nextEdge(y, ed, em) == val[(e + 1) % 3], "nextEdge around a vertex"); CHECK(em.size() == 3, "nextEdge added an edge"); }
            CHECK(!(EdgeData(1, 2) == EdgeData(1, 3)) && EdgeData(1, 2) == EdgeData(2, 1), "EdgeData equality"); EdgeData sd(1, 2); sd.setTriangle(7); CHECK(sd.t1 == 7 && sd.t2 == -1, "first triangle of an edge"); sd.setTriangle(9); CHECK(sd.t1 == 7 && sd.t2 == 9, "second triangle of an edge");
        }
    }
}
