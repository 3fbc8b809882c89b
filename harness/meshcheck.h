// Validity predicates over meshes (oracles), independent of the library's own geometry.
#pragma once
#include "gen.h"
#include <delynoi/models/Mesh.h>
#include <delynoi/voronoi/TriangleVoronoiGenerator.h>
#include <map>
#include <set>

struct View { std::vector<V> pts; std::vector<char> flag; std::vector<std::vector<int>> els;
    Poly poly(size_t i) const { Poly p; for (int k : els[i]) p.push_back(pts[k]); return p; }
    std::set<int> used() const { std::set<int> u; for (auto& e : els) u.insert(e.begin(), e.end()); return u; } };
template <class T> View view(Mesh<T>& m) {
    View v; std::vector<Point>& l = m.getPoints().getList();
    for (auto& p : l) { v.pts.push_back(toV(p)); Point q = p; v.flag.push_back(q.isInBoundary()); }
    for (auto& e : m.getPolygons()) { const T& ce = e; std::vector<int> idx = ce.getPoints(); v.els.push_back(idx); }
    for (size_t i = 0; i < v.els.size(); ++i) {
        CHECK(v.els[i].size() >= 3, "element " << i << " has only " << v.els[i].size() << " vertices");
        std::set<int> u;
        for (int k : v.els[i]) { CHECK(k >= 0 && k < (int)v.pts.size(), "element " << i << " refers to point " << k << " of " << v.pts.size()); CHECK(u.insert(k).second, "element " << i << " repeats vertex " << k); }
    }
    for (size_t i = 0; i < v.pts.size(); ++i) CHECK(std::isfinite((double)v.pts[i].x) && std::isfinite((double)v.pts[i].y), "mesh point " << i << " is not finite");
    return v;
}
struct BB { R x0 = 1e30L, y0 = 1e30L, x1 = -1e30L, y1 = -1e30L; BB(const Poly& p) { for (auto& v : p) { x0 = std::min(x0, v.x); y0 = std::min(y0, v.y); x1 = std::max(x1, v.x); y1 = std::max(y1, v.y); } }
    bool has(V q, R e) const { return q.x >= x0 - e && q.x <= x1 + e && q.y >= y0 - e && q.y <= y1 + e; } };

// geometric partition: simple ccw elements inside the domain, total area, coverage of sample points
inline void checkPartition(Ctx& c, const View& v, const Domain& d, R tol, R areaTol, int samples, const char* what, R expectedArea = -1) {
    R total = 0; std::vector<Poly> ps; std::vector<BB> bb;
    for (size_t i = 0; i < v.els.size(); ++i) {
        Poly p = v.poly(i); ps.push_back(p); bb.push_back(BB(p));
        R a = sarea(p); CHECK(a > 0, what << ": element " << i << " " << show(p) << " is not counter-clockwise with positive area (signed area " << a << ")");
        total += a;
        if (p.size() > 3) for (size_t x = 0; x < p.size(); ++x) for (size_t y = x + 2; y < p.size(); ++y) {
            if (x == 0 && y + 1 == p.size()) continue;
            CHECK(!crossDeep(p[x], p[(x + 1) % p.size()], p[y], p[(y + 1) % p.size()], tol * 10), what << ": element " << i << " " << show(p) << " crosses itself");
        }
        for (size_t x = 0; x < p.size(); ++x) {
            V a1 = p[x], m = (p[x] + p[(x + 1) % p.size()]) * 0.5L;
            CHECK(d.locate(a1, tol) >= 0, what << ": vertex " << show(a1) << " of element " << i << " is outside the domain or in a hole");
            CHECK(d.locate(m, tol) >= 0, what << ": edge middle " << show(m) << " of element " << i << " is outside the domain or in a hole");
        }
    }
    R A = expectedArea >= 0 ? expectedArea : d.area();
    CHECK(fabsl(total - A) <= areaTol, what << ": elements have total area " << total << " but the domain minus holes has " << A);
    auto count = [&](V q, int& strict, int& closed) { strict = closed = 0; for (size_t i = 0; i < ps.size(); ++i) if (bb[i].has(q, tol)) { int l = locate(q, ps[i], tol); if (l > 0) ++strict; if (l >= 0) ++closed; } };
    V lo, hi; d.bbox(lo, hi);
    for (int i = 0; i < samples; ++i) {
        V q(c.s.real((double)lo.x, (double)hi.x), c.s.real((double)lo.y, (double)hi.y)); int st, cl; int w = d.locate(q, 2 * tol); count(q, st, cl);
        if (w > 0) { CHECK(cl >= 1, what << ": interior point " << show(q) << " belongs to no element"); CHECK(st <= 1, what << ": point " << show(q) << " lies inside " << st << " elements"); }
        if (w < 0) CHECK(cl == 0, what << ": point " << show(q) << " outside the domain (or in a hole) belongs to an element");
    }
    for (size_t i = 0; i < ps.size() && i < 200; ++i) { // a point of each element: its most central vertex triangle
        V q = centroid(ps[i]); int st, cl; if (locate(q, ps[i], tol) <= 0) continue; count(q, st, cl);
        CHECK(st == 1, what << ": point " << show(q) << " lies inside " << st << " elements");
        CHECK(d.locate(q, tol) >= 0, what << ": point " << show(q) << " of element " << i << " is outside the domain or in a hole");
    }
}

typedef std::pair<int, int> E;
inline E ekey(int a, int b) { return a < b ? E(a, b) : E(b, a); }
inline std::map<E, std::vector<int>> edgeMap(const View& v) { std::map<E, std::vector<int>> m; for (size_t i = 0; i < v.els.size(); ++i) for (size_t k = 0; k < v.els[i].size(); ++k) m[ekey(v.els[i][k], v.els[i][(k + 1) % v.els[i].size()])].push_back((int)i); return m; }

template <class T> void checkNeighbourhood(Mesh<T>& m, const View& v, const Domain& d, R tol, const char* what) {
    auto em = edgeMap(v);
    for (auto& e : em) CHECK(e.second.size() <= 2, what << ": edge " << e.first.first << "-" << e.first.second << " belongs to " << e.second.size() << " elements");
    SegmentMap* sm = m.getSegments(); CHECK(sm, what << ": no segment map");
    CHECK(sm->size() == (int)em.size(), what << ": segment map has " << sm->size() << " entries, the elements have " << em.size() << " edges");
    std::set<E> seen;
    for (auto& kv : sm->getMap()) {
        E k = ekey(kv.first.getFirst(), kv.first.getSecond());
        CHECK(seen.insert(k).second, what << ": segment map lists edge " << k.first << "-" << k.second << " twice");
        auto it = em.find(k); CHECK(it != em.end(), what << ": segment map has edge " << k.first << "-" << k.second << " which no element has");
        std::multiset<int> got = {kv.second.getFirst(), kv.second.getSecond()}, want(it->second.begin(), it->second.end()); if (want.size() == 1) want.insert(-1);
        CHECK(got == want, what << ": edge " << k.first << "-" << k.second << " has neighbours {" << kv.second.getFirst() << "," << kv.second.getSecond() << "}, the elements having it are {" << it->second[0] << "," << (it->second.size() > 1 ? it->second[1] : -1) << "}");
        CHECK(kv.second.getFirst() != -1 || want.count(-1) == 0 || kv.second.getSecond() == -1 || true, "");
    }
    for (auto& e : em) {
        bool onB = d.onBoundaryEdge(v.pts[e.first.first], v.pts[e.first.second], tol);
        if (e.second.size() == 1) CHECK(onB, what << ": edge " << show(v.pts[e.first.first]) << "-" << show(v.pts[e.first.second]) << " has a single neighbour but is not on the boundary");
        else { // an edge between two elements cannot lie on the boundary, unless it is shorter than the tolerance
            if (dist(v.pts[e.first.first], v.pts[e.first.second]) > 20 * tol) CHECK(!onB, what << ": boundary edge " << show(v.pts[e.first.first]) << "-" << show(v.pts[e.first.second]) << " has two neighbours");
        }
        // lookups through the mesh, in both directions
        NeighboursBySegment n1 = m.getNeighbours(IndexSegment(e.first.first, e.first.second)), n2 = m.getNeighbours(IndexSegment(e.first.second, e.first.first));
        std::multiset<int> g1 = {n1.getFirst(), n1.getSecond()}, g2 = {n2.getFirst(), n2.getSecond()}, want(e.second.begin(), e.second.end()); if (want.size() == 1) want.insert(-1);
        CHECK(g1 == want && g2 == want, what << ": looking up edge " << e.first.first << "-" << e.first.second << " does not give its elements");
    }
    PointMap* pm = m.getPointMap(); CHECK(pm, what << ": no point map");
    std::map<int, std::set<int>> want; for (size_t i = 0; i < v.els.size(); ++i) for (int k : v.els[i]) want[k].insert((int)i);
    CHECK(pm->size() == (int)want.size(), what << ": point map has " << pm->size() << " entries, the elements use " << want.size() << " points");
    std::set<const void*> hit;
    for (auto& w : want) {
        auto it = pm->getMap().find(m.getPoints().getList()[w.first]);
        CHECK(it != pm->getMap().end(), what << ": point " << show(v.pts[w.first]) << " is missing from the point map");
        CHECK(dist(toV(it->first), v.pts[w.first]) < 1e-4L, what << ": point map entry is elsewhere");
        CHECK(hit.insert(&*it).second, what << ": two mesh points share a point map entry");
        std::vector<int> l = it->second.getNeighbours(); std::set<int> got(l.begin(), l.end());
        CHECK(l.size() == got.size(), what << ": the point map lists an element twice at " << show(v.pts[w.first]));
        CHECK(got == w.second, what << ": point " << show(v.pts[w.first]) << " is used by " << w.second.size() << " elements, the point map lists " << got.size() << " (or others)");
    }
}
// must be flagged within `on`, must not be flagged beyond `off`; the library's own merging tolerance (1e-5) lies between
inline void checkFlags(const View& v, const Domain& d, R on, R off, const char* what) {
    for (int i : v.used()) {
        R b = d.distBoundary(v.pts[i]);
        if (b <= on) CHECK(v.flag[i], what << ": point " << show(v.pts[i]) << " lies on the boundary but is not flagged");
        else if (b > off) CHECK(!v.flag[i], what << ": point " << show(v.pts[i]) << " is flagged as boundary but is " << b << " away from it");
    }
}
// every boundary/restricted segment is a chain of edges
inline bool onSegment(V q, V a, V b, R tol) { return distPS(q, a, b) <= tol; }
inline void checkSegmentsPresent(const View& v, const std::map<E, std::vector<int>>& em, const std::vector<std::pair<V, V>>& segs, R tol, const char* what, std::set<E>* covered = nullptr) {
    for (auto& s : segs) {
        R L = dist(s.first, s.second); if (L <= tol) continue; V u = (s.second - s.first) * (1 / L);
        std::vector<std::pair<R, R>> iv;
        for (auto& e : em) { V a = v.pts[e.first.first], b = v.pts[e.first.second];
            if (onSegment(a, s.first, s.second, tol) && onSegment(b, s.first, s.second, tol)) { R x = dot(a - s.first, u), y = dot(b - s.first, u); iv.push_back({std::min(x, y), std::max(x, y)}); if (covered) covered->insert(e.first); } }
        std::sort(iv.begin(), iv.end()); R at = 0; for (auto& i : iv) if (i.first <= at + 3 * tol) at = std::max(at, i.second);
        CHECK(at >= L - 3 * tol, what << ": segment " << show(s.first) << "-" << show(s.second) << " is not made of mesh edges (covered up to " << at << " of " << L << ")");
    }
}
// locally Delaunay: opposite angles sum to at most pi
inline void checkLocallyDelaunay(const View& v, const std::map<E, std::vector<int>>& em, const std::set<E>& exempt, const char* what, R slack = 1e-7L) {
    for (auto& e : em) {
        if (e.second.size() != 2 || exempt.count(e.first)) continue;
        R sum = 0; int ap[2], n = 0;
        for (int t : e.second) for (int k : v.els[t]) if (k != e.first.first && k != e.first.second) { if (n < 2) ap[n] = k; ++n; }
        if (n != 2) continue;
        for (int k = 0; k < 2; ++k) sum += angleAt(v.pts[ap[k]], v.pts[e.first.first], v.pts[e.first.second]);
        CHECK(sum <= M_PIl + slack, what << ": edge " << show(v.pts[e.first.first]) << "-" << show(v.pts[e.first.second]) << " is not locally Delaunay (apexes " << show(v.pts[ap[0]]) << "," << show(v.pts[ap[1]]) << ", angles sum to pi+" << (sum - M_PIl) << ")");
    }
}
inline std::vector<V> expectedVertices(const Domain& d, const Seeds& s) { std::vector<V> r = d.outline; for (auto& h : d.holes) r.insert(r.end(), h.pts.begin(), h.pts.end()); r.insert(r.end(), s.distinct.begin(), s.distinct.end()); return r; }
// all wanted vertices are used by elements; returns the used vertices that match none of them
inline std::vector<int> checkVertices(const View& v, const std::vector<V>& want, R tol, const char* what) {
    std::set<int> u = v.used(); std::vector<int> ul(u.begin(), u.end()); std::sort(ul.begin(), ul.end(), [&](int a, int b) { return v.pts[a].x < v.pts[b].x; });
    std::set<int> matched;
    for (auto& w : want) {
        auto it = std::lower_bound(ul.begin(), ul.end(), w.x - tol, [&](int a, R x) { return v.pts[a].x < x; }); int found = -1;
        for (; it != ul.end() && v.pts[*it].x <= w.x + tol; ++it) if (fabsl(v.pts[*it].y - w.y) <= tol) { CHECK(found == -1, what << ": vertex " << show(w) << " occurs twice"); found = *it; }
        CHECK(found != -1, what << ": expected vertex " << show(w) << " is not used by any element"); matched.insert(found);
    }
    std::vector<int> extra; for (int k : ul) if (!matched.count(k)) extra.push_back(k);
    for (size_t i = 0; i + 1 < ul.size(); ++i) for (size_t j = i + 1; j < ul.size() && v.pts[ul[j]].x - v.pts[ul[i]].x <= tol; ++j) CHECK(fabsl(v.pts[ul[j]].y - v.pts[ul[i]].y) > tol, what << ": two vertices at " << show(v.pts[ul[i]]));
    return extra;
}
inline std::vector<Point> seedPts(const Seeds& s) { return toPts(s.all); }
// restricted segments lying in the domain: ends at seeds, vertices, new points or ends of each other; crossing or not, without near misses
inline std::vector<std::pair<V, V>> genRestricted(Ctx& c, const Domain& d, const Seeds& s, std::vector<V>& cross_, bool& offSeed) {
    auto segs = d.segments(); int n = c.s.range(0, 4); std::vector<std::pair<V, V>> rs; offSeed = false; bool crossing = false;
    R clear = 0.08L * d.scale; V lo, hi; d.bbox(lo, hi);
    std::vector<V> known = s.distinct; known.insert(known.end(), d.outline.begin(), d.outline.end());
    auto isKnown = [&](V q) { for (auto& k : expectedVertices(d, s)) if (k.x == q.x && k.y == q.y) return true; return false; };
    auto pickPoint = [&]() -> V {
        int t = c.s.weighted({5, 2, 4, 2});
        if (t == 0 && !s.distinct.empty()) return s.distinct[c.s.range(0, (int)s.distinct.size() - 1)];
        if (t == 1) return d.outline[c.s.range(0, (int)d.outline.size() - 1)];
        if (t == 3 && !rs.empty()) { auto& q = rs[c.s.range(0, (int)rs.size() - 1)]; return c.s.chance(50) ? q.first : q.second; }
        return dbl(V(c.s.real((double)lo.x, (double)hi.x), c.s.real((double)lo.y, (double)hi.y)));
    };
    for (int i = 0; i < n; ++i) {
        V a = pickPoint(), b = pickPoint(); if (dist(a, b) < 0.3L * d.scale) continue;
        bool ok = true;
        for (V q : {a, b}) { if (isKnown(q)) continue; if (d.locate(q, clear) <= 0) ok = false; for (auto& w : expectedVertices(d, s)) if (dist(w, q) < clear) ok = false; for (auto& o : rs) for (V w : {o.first, o.second}) if (!(w.x == q.x && w.y == q.y) && dist(w, q) < clear) ok = false; for (auto& o : rs) if (!(o.first.x == q.x && o.first.y == q.y) && !(o.second.x == q.x && o.second.y == q.y) && distPS(q, o.first, o.second) < clear) ok = false; }
        // inside the domain: clear of all boundary segments it does not start on; middle inside
        V m = (a + b) * 0.5L; if (d.locate(m, clear / 4) <= 0) ok = false;
        for (auto& e : segs) { bool touch = (e.first.x == a.x && e.first.y == a.y) || (e.second.x == a.x && e.second.y == a.y) || (e.first.x == b.x && e.first.y == b.y) || (e.second.x == b.x && e.second.y == b.y);
            if (distPS(a, e.first, e.second) == 0 || distPS(b, e.first, e.second) == 0 || touch) { // leaves the boundary at a clear angle
                V o = (distPS(a, e.first, e.second) <= distPS(b, e.first, e.second)) ? a : b, f = (o.x == a.x && o.y == a.y) ? b : a; V q = o + (f - o) * (0.2L * d.scale / dist(a, b)); if (d.locate(q, clear / 8) <= 0) ok = false; if (distPS(f, e.first, e.second) < clear) ok = false; if (crossDeep(a, b, e.first, e.second, 1e-9L)) ok = false; continue; }
            if (segSeg(a, b, e.first, e.second) < clear / 2) ok = false; }
        // near misses of seeds by the segment interior are excluded (exactly-through is not decidable in doubles)
        for (auto& w : expectedVertices(d, s)) if (!(w.x == a.x && w.y == a.y) && !(w.x == b.x && w.y == b.y) && distPS(w, a, b) < 0.004L * d.scale) ok = false;
        for (auto& o : rs) { // ends of other segments near this one, unless shared
            for (V w : {o.first, o.second}) if (!(w.x == a.x && w.y == a.y) && !(w.x == b.x && w.y == b.y) && distPS(w, a, b) < clear) ok = false;
            R cr = fabsl(cross(o.second - o.first, b - a)) / (dist(a, b) * dist(o.first, o.second)); if (crossProper(a, b, o.first, o.second)) { if (cr < 0.2L) ok = false; }
            else if (cr < 0.1L && segSeg(a, b, o.first, o.second) < clear) ok = false; }
        if (!ok) continue;
        // crossings stay clear of each other
        for (auto& o : rs) if (crossProper(a, b, o.first, o.second)) crossing = true;
        if (!isKnown(a) || !isKnown(b)) offSeed = true;
        rs.push_back({a, b});
    }
    // crossing points too close to vertices or to each other make the case undecidable within tolerance: drop later segments
    cross_.clear();
    for (size_t i = 0; i < rs.size(); ++i) for (size_t j = 0; j < i; ++j) if (crossProper(rs[i].first, rs[i].second, rs[j].first, rs[j].second)) {
        V a = rs[i].first, b = rs[i].second, p = rs[j].first, q = rs[j].second; R t = cross(p - a, q - p) / cross(b - a, q - p); V x = a + (b - a) * t; bool bad = false;
        for (auto& w : expectedVertices(d, s)) if (dist(w, x) < clear / 2) bad = true; for (auto& w : cross_) if (dist(w, x) < clear / 2) bad = true;
        for (auto& o : rs) for (V w : {o.first, o.second}) if (dist(w, x) < clear / 2) bad = true;
        if (bad) { rs.erase(rs.begin() + i); --i; break; } cross_.push_back(x); }
    (void)crossing; return rs;
}
