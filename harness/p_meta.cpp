// P18 invariance of meshes under irrelevant changes, P20 repeatability and independence
#include "meshcheck.h"
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/basic/PointSegment.h>

// ---------------------------------------------------------------- P18
struct Figure { std::vector<Poly> els; R area = 0; size_t inserted = 0; };
static R polyHausdorff(const Poly& a, const Poly& b) { R m = 0; for (auto& v : a) m = std::max(m, distToBoundary(v, b)); for (auto& v : b) m = std::max(m, distToBoundary(v, a)); return m; }
// every element of a has its own counterpart in b
static void sameFigure(const Figure& a, const Figure& b, R tol, const char* what) {
    CHECK(a.els.size() == b.els.size(), what << ": " << a.els.size() << " elements before the change, " << b.els.size() << " after");
    std::vector<std::pair<V, size_t>> cb; for (size_t i = 0; i < b.els.size(); ++i) { V m; for (auto& v : b.els[i]) { m.x = std::max(m.x, v.x); } cb.push_back({centroid(b.els[i]), i}); }
    std::vector<bool> used(b.els.size(), false);
    for (auto& e : a.els) { V g = centroid(e); int best = -1; R bd = 1e30L; for (auto& x : cb) if (!used[x.second]) { R q = dist(x.first, g); if (q < bd) { bd = q; best = (int)x.second; } }
        CHECK(best >= 0, what << ": element around " << show(g) << " has no counterpart"); R h = polyHausdorff(e, b.els[best]);
        if (h > tol) { // nearly equal centroids: look for any other
            bool ok = false; for (size_t k = 0; k < b.els.size() && !ok; ++k) if (!used[k] && dist(cb[k].first, g) < bd + 2 * tol && polyHausdorff(e, b.els[k]) <= tol) { best = (int)k; ok = true; }
            CHECK(ok, what << ": element " << show(e) << " becomes " << show(b.els[best]) << " (difference " << h << ")"); }
        used[best] = true; }
}
struct Input { Domain d; Seeds s; };
static Figure voronoi(const Input& in) {
    Figure f; Region r = makeRegion(in.d); std::vector<Point> sp = toPts(in.s.all); TriangleVoronoiGenerator g(sp, r); Mesh<Polygon> m = g.getMesh(), t = g.getTriangulation(); View v = view(m), w = view(t);
    for (size_t i = 0; i < v.els.size(); ++i) { Poly p = v.poly(i); f.els.push_back(p); f.area += parea(p); } f.inserted = w.used().size() - std::min(w.used().size(), expectedVertices(in.d, in.s).size()); return f;
}
static Figure constrained(const Input& in, bool& unique) {
    Figure f; Region r = makeRegion(in.d); std::vector<Point> sp = toPts(in.s.all); TriangleDelaunayGenerator g(sp, r); Mesh<Triangle> m = g.getConstrainedDelaunayTriangulation(); View v = view(m); for (size_t i = 0; i < v.els.size(); ++i) { Poly p = v.poly(i); f.els.push_back(p); f.area += parea(p); }
    auto em = edgeMap(v); auto segs = in.d.segments(); unique = true;
    for (auto& e : em) { if (e.second.size() != 2) continue; R sum = 0; for (int t : e.second) for (int k : v.els[t]) if (k != e.first.first && k != e.first.second) sum += angleAt(v.pts[k], v.pts[e.first.first], v.pts[e.first.second]); if (sum > M_PIl - 1e-6L) unique = false; }
    return f;
}
PROPERTY(P18, 900) {
    Src& s = c.s; bool vor = s.chance(55); DomainOpts o; o.denseBoundary = vor && s.chance(85); o.maxTranslate = 200; Domain d = genMeshDomain(c, o); SeedOpts so; so.max = 30; so.bigChance = 2; so.bigMax = 100; so.grid = vor || s.chance(20); Seeds sd = genSeeds(c, d, so); { std::vector<V> ex; for (auto& v : sd.all) for (auto& w : sd.distinct) if (v.x == w.x && v.y == w.y) { ex.push_back(v); break; } sd.all = ex; } labelDomain(c, d); describe(c, d); describe(c, sd); // repetitions are exact here: of near-equal ones the first counts
    Input A{d, sd}, B = A; Xform x; R grow = 1, tf = 1; /* tf: factor of the tolerance */ int nt = s.range(1, 3); bool seedOnly = true; c.desc << " changes:";
    // the map taking figures of A to figures of B (applied to exact doubles on inputs)
    std::vector<std::function<V(V)>> maps;
    auto moveAll = [&](std::function<V(V)> f, bool circleFlip) { (void)circleFlip; for (auto& v : B.d.outline) v = dbl(f(v)); for (auto& h : B.d.holes) { if (h.circle) { h.c = dbl(f(h.c)); h.pts = circlePts(h.c, h.r, 12); } else for (auto& v : h.pts) v = dbl(f(v)); } for (auto& v : B.s.all) v = dbl(f(v)); for (auto& v : B.s.distinct) v = dbl(f(v)); maps.push_back(f); seedOnly = false; };
    for (int i = 0; i < nt; ++i) {
        switch (s.range(0, 11)) {
        case 0: c.desc << " seeds permuted"; for (size_t k = B.s.all.size(); k > 1; --k) std::swap(B.s.all[k - 1], B.s.all[s.range(0, (int)k - 1)]); c.label("seeds permuted"); break;
        case 1: { c.desc << " seeds repeated"; if (B.s.all.empty()) break; int k = s.range(1, 5); for (int q = 0; q < k; ++q) { V v = B.s.all[s.range(0, (int)B.s.all.size() - 1)]; B.s.all.insert(B.s.all.begin() + s.range(0, (int)B.s.all.size()), v); } c.label("seeds repeated"); break; }
        case 2: c.desc << " outline start"; B.d.outline = rotated(B.d.outline, s.range(1, (int)B.d.outline.size() - 1)); c.label("outline start"); seedOnly = false; break;
        case 3: c.desc << " outline reversed"; std::reverse(B.d.outline.begin(), B.d.outline.end()); c.label("outline reversed"); seedOnly = false; break;
        case 4: for (auto& h : B.d.holes) if (!h.circle) { h.pts = rotated(h.pts, s.range(0, (int)h.pts.size() - 1)); if (s.chance(50)) std::reverse(h.pts.begin(), h.pts.end()); c.label("hole relisted"); seedOnly = false; } c.desc << " holes relisted"; break;
        case 5: if (B.d.holes.size() > 1) { std::reverse(B.d.holes.begin(), B.d.holes.end()); if (s.chance(50)) std::swap(B.d.holes[0], B.d.holes[1]); c.label("holes reordered"); seedOnly = false; } c.desc << " holes reordered"; break;
        case 6: { V lo, hi; B.d.bbox(lo, hi); int k = s.range(1, 4), n = 0; for (int q = 0; q < k; ++q) { V v = dbl(V(lo.x + (hi.x - lo.x) * (1.6L * s.real01() - 0.3L), lo.y + (hi.y - lo.y) * (1.6L * s.real01() - 0.3L))); R K = B.d.scale * grow; if (B.d.locate(v, 0.05L * K) >= 0) continue; bool near = false; for (auto& w : B.s.all) if (dist(w, v) < 0.05L * K) near = true; if (near) continue; B.s.all.insert(B.s.all.begin() + s.range(0, (int)B.s.all.size()), v); ++n; c.desc << " outside" << show(v); } if (n) c.label("outside seeds"); break; }
        case 7: { V t(s.dyadic(-300, 300, 8), s.dyadic(-300, 300, 8)); c.desc << " moved" << show(t); moveAll([t](V v) { return v + t; }, false); c.label("translated"); break; }
        case 8: { R k = s.pick({2.0, 0.5, 10.0, 0.75, 3.0}); if (grow / tf * k * d.scale < 0.4L || grow / tf * k > 100) break; grow *= k; c.desc << " scaled " << k; for (auto& h : B.d.holes) if (h.circle) h.r = (double)(h.r * k); moveAll([k](V v) { return v * k; }, false); c.label("scaled by a factor"); break; }
        case 11: { R k = s.pick({0.125, 0.25, 4.0, 16.0, 64.0}); if (tf != 1) break; grow *= k; tf = k; c.desc << " scaled with the tolerance " << k; for (auto& h : B.d.holes) if (h.circle) h.r = (double)(h.r * k); moveAll([k](V v) { return v * k; }, false); c.label("scaled together with the tolerance"); break; }
        case 9: c.desc << " mirrored"; moveAll([](V v) { return V(-v.x, v.y); }, true); c.label("mirrored"); break;
        default: c.desc << " turned"; moveAll([](V v) { return V(-v.y, v.x); }, false); c.label("quarter turn"); break;
        }
    }
    auto mapped = [&](Figure f) { for (auto& e : f.els) { for (auto& v : e) for (auto& g : maps) v = g(v); } f.area *= grow * grow; return f; };
    R P = B.d.perim();
    if (vor) {
        Figure a = voronoi(A); DelynoiConfig::instance()->setTolerance((double)(1e-5L * tf)); Figure b = voronoi(B); R at = 2e-4L * (tf + grow) * (tf + grow + P);
        CHECK(fabsl(a.area * grow * grow - b.area) <= at, "Voronoi: the cells cover an area of " << a.area * grow * grow << " before the change and " << b.area << " after");
        if (a.inserted || b.inserted) { c.label("boundary points inserted"); return; }
        sameFigure(mapped(a), b, 2.5e-4L * (tf + grow), "Voronoi cells"); c.label("Voronoi compared"); c.nontrivial = sd.distinct.size() > 1;
    } else {
        bool ua, ub; Figure a = constrained(A, ua); DelynoiConfig::instance()->setTolerance((double)(1e-5L * tf)); Figure b = constrained(B, ub); R at = 1e-8L * (1 + P * P);
        CHECK(fabsl(a.area * grow * grow - b.area) <= at, "constrained triangulation: the triangles cover an area of " << a.area * grow * grow << " before the change and " << b.area << " after"); CHECK(a.els.size() == b.els.size(), "constrained triangulation: " << a.els.size() << " triangles before the change, " << b.els.size() << " after");
        if (!ua || !ub) { c.label("cocircular vertices"); return; }
        sameFigure(mapped(a), b, 1e-6L * (tf + grow) * (1 + P / tf * 1e-3L), "constrained triangulation"); c.label("triangulations compared"); c.nontrivial = sd.distinct.size() > 1;
    }
    (void)seedOnly;
}

// ---------------------------------------------------------------- P20
struct Snap { std::vector<V> pts; std::vector<bool> flag; std::vector<std::vector<int>> els; std::map<E, std::pair<int, int>> seg; std::vector<std::pair<V, std::vector<int>>> pm; };
template <class T> Snap snap(const Mesh<T>& mm) {
    Mesh<T>& m = const_cast<Mesh<T>&>(mm); Snap s; for (auto& p : m.getPoints().getList()) { s.pts.push_back(toV(p)); s.flag.push_back(p.isInBoundary()); } for (auto& e : m.getPolygons()) s.els.push_back(((const T&)e).getPoints());
    for (auto& kv : m.getSegments()->getMap()) s.seg[E(kv.first.getFirst(), kv.first.getSecond())] = {kv.second.getFirst(), kv.second.getSecond()}; for (auto& kv : m.getPointMap()->getMap()) s.pm.push_back({toV(kv.first), kv.second.getNeighbours()}); std::sort(s.pm.begin(), s.pm.end(), [](const std::pair<V, std::vector<int>>& a, const std::pair<V, std::vector<int>>& b) { return a.first.x < b.first.x || (a.first.x == b.first.x && a.first.y < b.first.y); }); return s;
}
static bool sameV(V a, V b) { return a.x == b.x && a.y == b.y; }
static void sameSnap(const Snap& a, const Snap& b, const std::string& what) {
    CHECK(a.pts.size() == b.pts.size(), what << ": " << b.pts.size() << " points instead of " << a.pts.size()); for (size_t i = 0; i < a.pts.size(); ++i) { CHECK(sameV(a.pts[i], b.pts[i]), what << ": point " << i << " is " << show(b.pts[i]) << " instead of " << show(a.pts[i])); CHECK(a.flag[i] == b.flag[i], what << ": the boundary flag of point " << i << " differs"); }
    CHECK(a.els.size() == b.els.size(), what << ": " << b.els.size() << " elements instead of " << a.els.size()); for (size_t i = 0; i < a.els.size(); ++i) CHECK(a.els[i] == b.els[i], what << ": element " << i << " differs");
    CHECK(a.seg == b.seg, what << ": the segment maps differ (" << a.seg.size() << " and " << b.seg.size() << " edges)");
    CHECK(a.pm.size() == b.pm.size(), what << ": the point maps have " << a.pm.size() << " and " << b.pm.size() << " entries"); for (size_t i = 0; i < a.pm.size(); ++i) CHECK(sameV(a.pm[i].first, b.pm[i].first) && a.pm[i].second == b.pm[i].second, what << ": the point map differs at " << show(a.pm[i].first));
}
struct Given { std::vector<Point> seeds; Region region; std::vector<PointSegment> rs; };
struct Held20 { int kind; Mesh<Triangle> t; Mesh<Polygon> p; Snap s; std::string name; };
static void samePts(const std::vector<Point>& a, const std::vector<Point>& b, const char* what) { CHECK(a.size() == b.size(), what << " (" << a.size() << " points, now " << b.size() << ")"); for (size_t i = 0; i < a.size(); ++i) CHECK(a[i].getX() == b[i].getX() && a[i].getY() == b[i].getY(), what << " (point " << i << ")"); }
PROPERTY(P20, 1600) {
    Src& s = c.s; int nin = s.range(1, 2), crossings = 0; std::vector<Given> in; std::vector<Domain> ds;
    for (int i = 0; i < nin; ++i) { DomainOpts o; o.maxHoles = 2; Domain d = genMeshDomain(c, o); SeedOpts so; so.max = 15; so.bigChance = 0; Seeds sd = genSeeds(c, d, so); labelDomain(c, d); describe(c, d); describe(c, sd); Given g; g.region = makeRegion(d); g.seeds = toPts(sd.all); if (s.chance(40)) { std::vector<Point> rp = g.seeds; g.region.addSeedPoints(rp); g.seeds.clear(); for (auto& q : g.region.getSeedPoints()) for (auto& v : sd.distinct) if (q.getX() == (double)v.x && q.getY() == (double)v.y) { g.seeds.push_back(q); break; } }/* a twin 1e-7 off an edge must not stay without the exact seed */ std::vector<V> cr; bool off; for (auto& q : genRestricted(c, d, sd, cr, off)) g.rs.push_back(PointSegment(toP(q.first), toP(q.second))); crossings += (int)cr.size(); in.push_back(g); ds.push_back(d); }
    // live generators with a private record of what they were given
    struct Gen { TriangleDelaunayGenerator g; Given was; size_t input; bool stale; }; std::vector<Gen> gens; std::vector<Held20> held; int n = s.range(2, 9), asked = 0, repeated = 0; std::set<std::pair<int, int>> kinds; c.desc << " |";
    std::vector<Given> orig = in;
    auto fresh = [&](const Given& g, int kind, bool rs) -> Snap { // a new generator, from new copies
        std::vector<Point> sp = g.seeds; Region r(g.region); if (kind == 3 || kind == 4) { TriangleVoronoiGenerator v(sp, r); return kind == 3 ? snap(v.getMesh()) : snap(v.getTriangulation()); }
        TriangleDelaunayGenerator x(sp, r); if (kind == 0) return snap(x.getConstrainedDelaunayTriangulation()); if (kind == 1) return snap(x.getConformingDelaunayTriangulation()); (void)rs; return snap(x.getConstrainedDelaunayTriangulation(g.rs)); };
    for (int i = 0; i < n; ++i) {
        int op = s.weighted({3, 8, 2, 2}); size_t w = s.range(0, (int)in.size() - 1);
        if (op == 0 || gens.empty()) { if (gens.size() >= 3) continue; c.desc << " new" << gens.size() << "<-" << w; gens.push_back({TriangleDelaunayGenerator(in[w].seeds, in[w].region), in[w], w, false}); }
        else if (op == 1) {
            size_t q = s.range(0, (int)gens.size() - 1); Gen& g = gens[q]; int kind = s.range(0, 2); static const char* nm[] = {"constrained", "conforming", "restricted"}; std::ostringstream t; t << nm[kind] << " triangulation of generator " << q << " (request " << i << ")"; c.desc << " " << nm[kind] << q; ++asked; if (!kinds.insert({(int)q, kind}).second) ++repeated;
            Held20 h; h.kind = kind; h.name = t.str(); if (kind == 0) h.t = g.g.getConstrainedDelaunayTriangulation(); else if (kind == 1) h.t = g.g.getConformingDelaunayTriangulation(); else { std::vector<PointSegment> rs = g.was.rs; h.t = g.g.getConstrainedDelaunayTriangulation(rs); } h.s = snap(h.t);
            sameSnap(fresh(g.was, kind, true), h.s, h.name + " compared with a fresh generator"); held.push_back(h); if (g.stale) c.label("asked after the inputs changed"); }
        else if (op == 2) { // Voronoi diagram twice
            std::vector<Point> sp = in[w].seeds; TriangleVoronoiGenerator v(sp, in[w].region); samePts(in[w].seeds, sp, "the Voronoi generator changed the caller's seeds"); Held20 h; h.kind = s.chance(60) ? 3 : 4; h.name = h.kind == 3 ? "Voronoi mesh" : "companion triangulation"; h.p = h.kind == 3 ? v.getMesh() : v.getTriangulation(); h.s = snap(h.p); c.desc << (h.kind == 3 ? " voronoi" : " companion") << w; sameSnap(fresh(in[w], h.kind, false), h.s, h.name + " compared with a fresh generator"); sameSnap(h.s, snap(h.kind == 3 ? v.getMesh() : v.getTriangulation()), h.name + " asked for twice"); held.push_back(h); ++asked; c.label("Voronoi"); }
        else { // the caller goes on using its own region and seeds
            int k = s.range(0, 3); c.desc << " change" << k << "@" << w; V lo, hi; ds[w].bbox(lo, hi);
            if (k == 0) { in[w].seeds.clear(); in[w].rs.clear(); } else if (k == 1) { for (auto& p : in[w].seeds) { p.setX(p.getX() + 1); p.setY(-3); } in[w].seeds.clear(); in[w].rs.clear(); } else if (k == 2) { in[w].region.cleanSeedPoints(); std::vector<Point> extra; extra.push_back(toP((lo + hi) * 0.5L)); in[w].region.addSeedPoints(extra); }
            else { Poly sq = {lo, V(hi.x, lo.y), hi, V(lo.x, hi.y)}; std::vector<Point> sp = toPts(sq); in[w].region = Region(sp); in[w].seeds.clear(); in[w].rs.clear(); ds[w].outline = sq; ds[w].holes.clear(); }
            orig[w] = in[w]; for (auto& g : gens) if (g.input == w) g.stale = true; c.label("inputs changed later"); }
        // nothing the library did has changed the caller's things or earlier results
        for (size_t k = 0; k < in.size(); ++k) { samePts(orig[k].seeds, in[k].seeds, "the caller's seeds changed"); samePts(orig[k].region.getRegionPoints(), in[k].region.getRegionPoints(), "the caller's region changed"); samePts(orig[k].region.getSeedPoints(), in[k].region.getSeedPoints(), "the caller's region's seeds changed"); CHECK(orig[k].region.getHoles().size() == in[k].region.getHoles().size(), "the caller's region's holes changed"); }
        for (auto& h : held) sameSnap(h.s, h.kind >= 3 ? snap(h.p) : snap(h.t), "earlier result: " + h.name);
    }
    c.nontrivial = asked >= 2; if (repeated) c.label("same request repeated"); if (crossings) c.label("crossing restricted segments");
}
