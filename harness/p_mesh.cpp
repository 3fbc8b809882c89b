// P01-P07: Voronoi and Delaunay meshes
#include "meshcheck.h"

static const R VTOL = 1e-4L;     // Voronoi vertices may be merged within the library's 1e-5 tolerance
static const R DTOL = 1e-7L;     // triangulation vertices are input points or split points
static R vArea(const Domain& d) { return 1e-4L * (1 + d.perim()) ; }
static R dArea(const Domain& d) { return 1e-9L * (1 + d.perim() * d.perim()); }
static R dtol(const Domain& d) { R m = 1; for (auto& v : d.outline) m = std::max(m, std::max(fabsl(v.x), fabsl(v.y))); return DTOL * (1 + m * 1e-3L); }
static void noteCase(Ctx& c, const Domain& d, const Seeds& s) { labelDomain(c, d); describe(c, d); describe(c, s); }

PROPERTY(P01, 700) {
    Domain d = genMeshDomain(c); Seeds s = genSeeds(c, d); noteCase(c, d, s);
    std::vector<Point> sp = seedPts(s); Region r = makeRegion(d);
    TriangleVoronoiGenerator g(sp, r); Mesh<Polygon> m = g.getMesh(); View v = view(m);
    if (v.els.size() > d.outline.size()) c.nontrivial = true;
    checkPartition(c, v, d, VTOL, vArea(d), 40, "Voronoi");
}

PROPERTY(P02, 700) {
    Domain d = genMeshDomain(c); Seeds s = genSeeds(c, d); noteCase(c, d, s);
    std::vector<Point> sp = seedPts(s); Region r = makeRegion(d);
    TriangleVoronoiGenerator g(sp, r); Mesh<Polygon> m = g.getMesh(); Mesh<Polygon> del = g.getTriangulation();
    View v = view(m), t = view(del);
    std::set<int> us = t.used(); std::vector<V> sites; for (int k : us) sites.push_back(t.pts[k]);
    checkVertices(t, expectedVertices(d, s), dtol(d), "companion triangulation");
    // the library leaves out cell vertices that are collinear within its tolerance, by up to 1e-5 / edge length
    CHECK(v.els.size() == sites.size(), "there are " << v.els.size() << " cells but " << sites.size() << " triangulation vertices");
    std::vector<Poly> ps; std::vector<BB> bb; for (size_t i = 0; i < v.els.size(); ++i) { ps.push_back(v.poly(i)); bb.push_back(BB(ps.back())); }
    std::vector<int> siteOf(ps.size(), -1);
    for (size_t k = 0; k < sites.size(); ++k) {
        int own = -1, n = 0;
        for (size_t i = 0; i < ps.size(); ++i) if (bb[i].has(sites[k], 2 * VTOL) && locate(sites[k], ps[i], 2 * VTOL) >= 0) { own = (int)i; ++n; }
        CHECK(n == 1, "generator " << show(sites[k]) << " lies in " << n << " cells");
        CHECK(siteOf[own] == -1, "cell " << own << " contains two generators " << show(sites[siteOf[own]]) << " and " << show(sites[k])); siteOf[own] = (int)k;
    }
    for (size_t i = 0; i < ps.size(); ++i) CHECK(siteOf[i] != -1, "cell " << i << " contains no generator");
    if (sites.size() > d.outline.size()) c.nontrivial = true;
    auto segs = d.segments();
    auto visible = [&](V q, V g2) {
        for (auto& e : segs) {
            if (distPS(g2, e.first, e.second) < 1e-6L) continue;
            if (segSeg(q, g2, e.first, e.second) < 1e-3L) return false; // near misses count as hidden: the weaker reading
        }
        V b = g2 + (q - g2) * 1e-3L; return d.locate(b, 1e-9L) > 0;
    };
    // Voronoi vertices are equidistant from the generators of their cells
    std::map<int, std::vector<int>> at; for (size_t i = 0; i < v.els.size(); ++i) for (int k : v.els[i]) at[k].push_back((int)i);
    for (auto& a : at) { R lo = 1e30L, hi = 0; for (int cell : a.second) { R x = dist(v.pts[a.first], sites[siteOf[cell]]); lo = std::min(lo, x); hi = std::max(hi, x); }
        CHECK(hi - lo <= VTOL * (1 + hi * 1e-3L), "Voronoi vertex " << show(v.pts[a.first]) << " is not equidistant from its cells' generators (" << lo << " .. " << hi << ")"); }
    auto checkAt = [&](V q, int cell) {
        V own = sites[siteOf[cell]]; R d0 = dist(q, own);
        for (size_t k = 0; k < sites.size(); ++k) if ((int)k != siteOf[cell] && dist(q, sites[k]) < d0 - 3 * VTOL) CHECK(!visible(q, sites[k]), "point " << show(q) << " of the cell of " << show(own) << " (distance " << d0 << ") sees the closer generator " << show(sites[k]) << " (distance " << dist(q, sites[k]) << ")");
    };
    V lo, hi; d.bbox(lo, hi); int tested = 0;
    for (int i = 0; i < 40; ++i) {
        V q(c.s.real((double)lo.x, (double)hi.x), c.s.real((double)lo.y, (double)hi.y)); if (d.locate(q, VTOL) <= 0) continue;
        for (size_t k = 0; k < ps.size(); ++k) if (bb[k].has(q, 0) && locate(q, ps[k], VTOL) > 0) { ++tested; checkAt(q, (int)k); break; }
    }
    for (size_t k = 0; k < ps.size() && k < 120; ++k) for (auto& w : ps[k]) { V q = w + (sites[siteOf[k]] - w) * 0.03L; if (d.locate(q, VTOL) > 0 && locate(q, ps[k], VTOL) > 0) { ++tested; checkAt(q, (int)k); } }
    (void)tested;
}

// all the kinds of mesh the library generates, for P03 and P07
template <class F> static void forSomeMesh(Ctx& c, const Domain& d, const Seeds& s, F f) {
    std::vector<Point> sp = seedPts(s); Region r = makeRegion(d);
    int which = c.s.range(0, 3);
    if (which == 0) { TriangleVoronoiGenerator g(sp, r); f(g.getMesh(), "Voronoi", VTOL); f(g.getTriangulation(), "companion triangulation", dtol(d)); c.label("mesh-voronoi+companion"); }
    else if (which == 1) { TriangleDelaunayGenerator g(sp, r); Mesh<Triangle> m = g.getConstrainedDelaunayTriangulation(); f(m, "constrained triangulation", dtol(d)); c.label("mesh-constrained"); }
    else if (which == 2) { TriangleDelaunayGenerator g(sp, r); Mesh<Triangle> m = g.getConformingDelaunayTriangulation(); f(m, "conforming triangulation", dtol(d)); c.label("mesh-conforming"); }
    else {
        std::vector<PointSegment> rs; auto inside = s.distinct; auto all = expectedVertices(d, s); std::vector<std::pair<V, V>> kept; std::vector<V> crossings;
        for (size_t i = 0; i + 1 < inside.size() && rs.size() < 3; i += 2) {
            V a = inside[i], b = inside[i + 1]; bool ok = true; R near = 0.01L * d.scale; std::vector<V> mine;
            for (auto& e : d.segments()) if (segSeg(a, b, e.first, e.second) < 5 * near) ok = false;
            for (auto& w : all) if (!(w.x == a.x && w.y == a.y) && !(w.x == b.x && w.y == b.y) && distPS(w, a, b) < near) ok = false; // near misses are not decidable within the tolerance
            for (auto& o : kept) if (crossProper(a, b, o.first, o.second)) { V p = o.first, q = o.second; R den = cross(b - a, q - p); if (fabsl(den) < 0.1L * dist(a, b) * dist(p, q)) { ok = false; break; } V x = a + (b - a) * (cross(p - a, q - p) / den); for (auto& w : all) if (dist(w, x) < near) ok = false; for (auto& w : crossings) if (dist(w, x) < near) ok = false; mine.push_back(x); }
            if (!ok) continue;
            crossings.insert(crossings.end(), mine.begin(), mine.end()); kept.push_back({a, b}); rs.push_back(PointSegment(toP(a), toP(b))); }
        TriangleDelaunayGenerator g(sp, r); Mesh<Triangle> m = g.getConstrainedDelaunayTriangulation(rs); f(m, "restricted triangulation", dtol(d)); c.label("mesh-restricted");
    }
}
struct CheckNb { Ctx& c; const Domain& d; template <class T> void operator()(Mesh<T>& m, const char* what, R tol) { View v = view(m); if (v.els.size() > 4) c.nontrivial = true; checkNeighbourhood(m, v, d, tol, what); } };
PROPERTY(P03, 700) {
    Domain d = genMeshDomain(c); Seeds s = genSeeds(c, d); noteCase(c, d, s);
    forSomeMesh(c, d, s, CheckNb{c, d});
}
struct CheckFl { Ctx& c; const Domain& d; template <class T> void operator()(Mesh<T>& m, const char* what, R tol) { View v = view(m); bool vor = tol == VTOL; checkFlags(v, d, vor ? 2e-6L : tol, vor ? 3e-5L : 3 * tol, what); bool inner = false; for (int k : v.used()) if (!v.flag[k]) inner = true; if (inner) c.nontrivial = true; } };
PROPERTY(P07, 700) {
    Domain d = genMeshDomain(c); Seeds s = genSeeds(c, d); noteCase(c, d, s);
    forSomeMesh(c, d, s, CheckFl{c, d});
}

PROPERTY(P04, 700) {
    SeedOpts so; so.outside = c.s.chance(15); so.max = 50;
    Domain d = genMeshDomain(c); Seeds s = genSeeds(c, d, so); noteCase(c, d, s);
    std::vector<Point> sp = seedPts(s); Region r = makeRegion(d);
    TriangleDelaunayGenerator g(sp, r); Mesh<Triangle> m = g.getConstrainedDelaunayTriangulation(); View v = view(m);
    for (auto& e : v.els) CHECK(e.size() == 3, "element with " << e.size() << " vertices in a triangulation");
    const char* W = "constrained triangulation"; R tol = dtol(d);
    checkPartition(c, v, d, tol, dArea(d), 20, W);
    auto extra = checkVertices(v, expectedVertices(d, s), tol, W);
    CHECK(extra.empty(), W << ": vertex " << show(v.pts[extra[0]]) << " is neither a domain vertex, a hole vertex nor a seed");
    auto em = edgeMap(v); checkSegmentsPresent(v, em, d.segments(), tol, W);
    checkLocallyDelaunay(v, em, {}, W);
    if (!s.distinct.empty()) c.nontrivial = true;
}

// everything on a lattice, so that segments run exactly through seeds, along the boundary and over one another
static Domain genLattice(Ctx& c, Seeds& sd, std::vector<std::pair<V, V>>& rs, std::vector<V>& cross_, bool& offSeed) {
    Src& s = c.s; Domain d; int w = s.range(4, 10), h = s.range(4, 10), a = s.range(1, w - 1), b = s.range(1, h - 1); d.scale = 1;
    switch (s.range(0, 4)) {
    case 0: d.outline = {V(0, 0), V(w, 0), V(w, h), V(0, h)}; d.kind = "rect"; break;
    case 1: d.outline = {V(0, 0), V(w, 0), V(w, b), V(a, b), V(a, h), V(0, h)}; d.kind = "L"; break;
    case 2: d.outline = {V(0, 0), V(w, 0), V(w, h), V(a, h), V(0, b)}; d.kind = "cut"; break;
    case 3: d.outline = {V(0, 0), V(w, 0), V(w, h), V(a, b), V(0, h)}; d.kind = "notch"; break;
    default: d.outline = {V(0, 0), V(a, 0), V(w, 0), V(w, b), V(w, h), V(0, h), V(0, b)}; d.kind = "rect+sub"; break;
    }
    if (minAngle(d.outline) < 15) { d.outline = {V(0, 0), V(w, 0), V(w, h), V(0, h)}; d.kind = "rect"; }
    if (s.chance(40)) { int x = s.range(1, w - 2), y = s.range(1, h - 2), u = s.range(1, 3), v = s.range(1, 3); HoleSpec q; q.pts = {V(x, y), V(x + u, y), V(x + u, y + v), V(x, y + v)}; bool ok = polyDist(q.pts, d.outline) > 0.4L && insideRaw(q.pts[0], d.outline); if (ok) { if (s.chance(40)) std::reverse(q.pts.begin(), q.pts.end()); d.holes.push_back(q); } }
    if (s.chance(30)) std::reverse(d.outline.begin(), d.outline.end());
    std::vector<V> all; for (int x = 0; x <= w; ++x) for (int y = 0; y <= h; ++y) { V v(x, y); if (d.locate(v, 1e-9L) >= 0) all.push_back(v); }
    auto in = [](const std::vector<V>& l, V v) { for (auto& q : l) if (q.x == v.x && q.y == v.y) return true; return false; };
    std::vector<V> verts = expectedVertices(d, sd); int n = s.chance(20) ? (int)all.size() : s.range(0, 12); for (int i = 0; i < n; ++i) { V v = n == (int)all.size() ? all[i] : all[s.range(0, (int)all.size() - 1)]; sd.all.push_back(v); if (!in(verts, v) && !in(sd.distinct, v)) sd.distinct.push_back(v); }
    sd.kind = "lattice"; auto segs = d.segments(); int m = s.chance(12) ? s.range(6, 24) : s.range(0, 6);
    for (int i = 0; i < m; ++i) {
        V p = all[s.range(0, (int)all.size() - 1)], q = all[s.range(0, (int)all.size() - 1)];
        if (!rs.empty() && s.chance(20)) { auto& o = rs[s.range(0, (int)rs.size() - 1)]; p = o.second; q = o.first; if (s.chance(50)) p = all[s.range(0, (int)all.size() - 1)]; }
        else if (s.chance(20)) { auto& e = segs[s.range(0, (int)segs.size() - 1)]; p = e.first; q = e.second; }
        if (p.x == q.x && p.y == q.y) continue;
        std::vector<R> t = {0, 1}; V u = q - p; for (auto& e : segs) { R den = cross(u, e.second - e.first); if (den != 0) { R x = cross(e.first - p, e.second - e.first) / den; if (x > 0 && x < 1) t.push_back(x); } else for (V z : {e.first, e.second}) { R x = dot(z - p, u) / dot(u, u); if (x > 0 && x < 1) t.push_back(x); } }
        std::sort(t.begin(), t.end()); bool ok = true; for (size_t k = 0; k + 1 < t.size(); ++k) if (t[k + 1] - t[k] > 1e-9L && d.locate(p + u * ((t[k] + t[k + 1]) / 2), 1e-9L) < 0) ok = false;
        if (!ok) continue;
        std::vector<V> mine; for (auto& o : rs) { V f = o.second - o.first; R den = cross(u, f); if (den == 0) continue; R x = cross(o.first - p, f) / den, y = cross(o.first - p, u) / den; if (x < -1e-12L || x > 1 + 1e-12L || y < -1e-12L || y > 1 + 1e-12L) continue; V z = p + u * x; V g(roundl(z.x), roundl(z.y)); if (dist(z, g) < 1e-9L) { mine.push_back(g); continue; } mine.push_back(z); }
        for (size_t k = 0; k < mine.size() && ok; ++k) { bool lat = mine[k].x == roundl(mine[k].x) && mine[k].y == roundl(mine[k].y); if (lat) continue; for (auto& z : cross_) if (dist(z, mine[k]) < 0.02L) ok = false; for (size_t l = 0; l < k; ++l) if (dist(mine[l], mine[k]) < 0.02L) ok = false; }
        if (!ok) continue;
        for (auto& z : mine) { bool lat = z.x == roundl(z.x) && z.y == roundl(z.y); if (!lat) cross_.push_back(z); else if (!in(verts, z) && !in(sd.distinct, z)) { sd.distinct.push_back(z); sd.all.push_back(z); } }
        rs.push_back({p, q});
    }
    // a power of two and an exact shift keep everything exact
    R k = s.pick({1.0L, 0.5L, 2.0L, 8.0L}); V sh(s.range(-20, 20), s.range(-20, 20)); auto f = [&](V& v) { v = v * k + sh; };
    for (auto& v : d.outline) f(v); for (auto& q : d.holes) for (auto& v : q.pts) f(v); for (auto& v : sd.all) f(v); for (auto& v : sd.distinct) f(v); for (auto& v : cross_) f(v); for (auto& q : rs) { f(q.first); f(q.second); } d.scale = k;
    auto known = expectedVertices(d, sd); for (auto& q : rs) if (!in(known, q.first) || !in(known, q.second)) offSeed = true;
    return d;
}
PROPERTY(P05, 800) {
    bool lattice = c.s.chance(30); Domain d; Seeds s; std::vector<V> cross_; bool offSeed = false; std::vector<std::pair<V, V>> rs;
    if (lattice) { d = genLattice(c, s, rs, cross_, offSeed); c.label("lattice"); } else { d = genMeshDomain(c); SeedOpts so; so.max = 25; so.bigChance = 1; so.bigMax = 120; s = genSeeds(c, d, so); rs = genRestricted(c, d, s, cross_, offSeed);
        if (!rs.empty() && c.s.chance(20)) { // a row of seeds along the first segment, on it up to rounding
            V a = rs[0].first, b = rs[0].second; int m = c.s.range(2, 14), put = 0; R gap = 0.05L * d.scale; auto have = expectedVertices(d, s);
            for (int i = 1; i <= m; ++i) { V q = dbl(a + (b - a) * ((R)i / (m + 1))); bool ok = d.locate(q, gap) > 0; for (auto& w : have) if (dist(w, q) < gap) ok = false; for (auto& x : rs) for (V w : {x.first, x.second}) if (dist(w, q) < gap) ok = false; for (auto& w : cross_) if (dist(w, q) < gap) ok = false; for (size_t j = 1; j < rs.size(); ++j) if (distPS(q, rs[j].first, rs[j].second) < gap) ok = false;
                if (!ok) continue; have.push_back(q); s.distinct.push_back(q); s.all.insert(s.all.begin() + c.s.range(0, (int)s.all.size()), q); ++put; }
            if (put > 3) c.label("row of seeds on a segment"); } }
    noteCase(c, d, s); auto segs = d.segments();
    std::vector<PointSegment> ps; for (auto& x : rs) { ps.push_back(PointSegment(toP(x.first), toP(x.second))); c.desc << " restrict" << show(x.first) << "-" << show(x.second); }
    c.label("restricted-" + std::to_string(rs.size())); if (offSeed) c.label("restricted-end-not-a-seed"); if (!cross_.empty()) c.label("restricted-crossing");
    if (!rs.empty()) c.nontrivial = true;
    std::vector<Point> sp = seedPts(s); Region r = makeRegion(d);
    TriangleDelaunayGenerator g(sp, r); Mesh<Triangle> m = g.getConstrainedDelaunayTriangulation(ps); View v = view(m);
    const char* W = "restricted triangulation"; R tol = dtol(d);
    checkPartition(c, v, d, tol * 10, dArea(d) * 10, 10, W);
    std::vector<V> want = expectedVertices(d, s); for (auto& x : rs) for (V q : {x.first, x.second}) { bool dup = false; for (auto& w : want) if (dist(w, q) < 1e-6L) dup = true; if (!dup) want.push_back(q); }
    auto extra = checkVertices(v, want, tol, W);
    auto near = [&](V q, const std::vector<V>& l) { for (auto& w : l) if (dist(w, q) < 1e-6L * (1 + d.scale)) return true; return false; };
    for (int k : extra) CHECK(near(v.pts[k], cross_), W << ": vertex " << show(v.pts[k]) << " is neither given nor a crossing of restricted segments");
    auto em = edgeMap(v); std::set<E> cov; R stol = 1e-6L * (1 + d.scale);
    checkSegmentsPresent(v, em, segs, stol, W); checkSegmentsPresent(v, em, rs, stol, W, &cov);
    checkLocallyDelaunay(v, em, cov, W, cross_.empty() ? 1e-7L : 1e-5L);
}

PROPERTY(P06, 700) {
    Domain d = genMeshDomain(c); Seeds s = genSeeds(c, d); noteCase(c, d, s);
    std::vector<Point> sp = seedPts(s); Region r = makeRegion(d);
    const char* W = "conforming triangulation"; R tol = dtol(d); View v;
    if (c.s.chance(70)) { TriangleDelaunayGenerator g(sp, r); Mesh<Triangle> m = g.getConformingDelaunayTriangulation(); v = view(m); }
    else { TriangleVoronoiGenerator g(sp, r); Mesh<Polygon> m = g.getTriangulation(); v = view(m); c.label("companion"); }
    for (auto& e : v.els) CHECK(e.size() == 3, "element with " << e.size() << " vertices in a triangulation");
    checkPartition(c, v, d, tol, dArea(d), 20, W);
    auto extra = checkVertices(v, expectedVertices(d, s), tol, W);
    for (int k : extra) CHECK(d.distBoundary(v.pts[k]) <= tol, W << ": inserted vertex " << show(v.pts[k]) << " is not on the outline or a hole");
    if (!extra.empty()) c.label("boundary-split");
    auto em = edgeMap(v); checkSegmentsPresent(v, em, d.segments(), tol, W); checkLocallyDelaunay(v, em, {}, W);
    for (auto& e : em) if (e.second.size() == 1) for (int k : v.els[e.second[0]]) if (k != e.first.first && k != e.first.second) {
        R a = angleAt(v.pts[k], v.pts[e.first.first], v.pts[e.first.second]);
        CHECK(a <= M_PIl / 2 + 1e-7L, W << ": boundary edge " << show(v.pts[e.first.first]) << "-" << show(v.pts[e.first.second]) << " has the apex " << show(v.pts[k]) << " inside its diametral circle"); }
    if (!s.distinct.empty() || !extra.empty()) c.nontrivial = true;
}
