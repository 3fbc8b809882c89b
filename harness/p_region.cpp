// P08 holes, P09 seed histories, P11 point location
#include "meshcheck.h"
#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/polygon/BoundingBox.h>
#include <delynoi/models/hole/clipper/ClipperWrapper.h>
#include <fstream>
#include <cstring>

// signed fan: area of subject ∩ H for any simple H
static R interArea(const Poly& subject, const Poly& h) {
    R s = 0; for (size_t i = 1; i + 1 < h.size(); ++i) { Poly t = {h[0], h[i], h[i + 1]}; R a = sarea(t); if (a == 0) continue; s += (a > 0 ? 1 : -1) * clipArea(subject, t); }
    return fabsl(s);
}
// how the hole meets the outline; clear=false when it is too close to call (near touching)
struct Meet { bool clear = true; int crossings = 0; int pieces = 1; bool inside = false, outside = false, covers = false; };
static Meet meet(const Poly& P, const Poly& H, R eps) {
    Meet m; struct X { size_t pe, he; R pt, ht; }; std::vector<X> xs;
    for (auto& v : H) if (distToBoundary(v, P) < eps) m.clear = false;
    for (auto& v : P) if (distToBoundary(v, H) < eps) m.clear = false;
    if (!m.clear) return m;
    for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < H.size(); ++j) {
        V a = P[i], b = P[(i + 1) % P.size()], p = H[j], q = H[(j + 1) % H.size()];
        if (!crossProper(a, b, p, q)) { continue; }
        R den = cross(b - a, q - p); if (fabsl(den) < 0.25L * dist(a, b) * dist(p, q)) m.clear = false;
        xs.push_back({i, j, cross(p - a, q - p) / den, cross(p - a, b - a) / den});
    }
    m.crossings = (int)xs.size();
    if (xs.empty()) { m.inside = insideRaw(H[0], P); m.covers = !m.inside && insideRaw(P[0], H); m.outside = !m.inside && !m.covers; m.pieces = m.covers ? 0 : 1; return m; }
    if (xs.size() % 2) { m.clear = false; return m; }
    std::vector<int> uf(xs.size()); for (size_t i = 0; i < uf.size(); ++i) uf[i] = (int)i;
    std::function<int(int)> find = [&](int x) { return uf[x] == x ? x : uf[x] = find(uf[x]); };
    auto at = [&](const X& x) { V a = P[x.pe], b = P[(x.pe + 1) % P.size()]; return a + (b - a) * x.pt; };
    for (size_t i = 0; i < xs.size(); ++i) for (size_t j = 0; j < i; ++j) if (dist(at(xs[i]), at(xs[j])) < eps) m.clear = false;
    auto join = [&](bool alongP) {
        std::vector<int> o(xs.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = (int)i;
        std::sort(o.begin(), o.end(), [&](int x, int y) { auto kx = alongP ? std::make_pair(xs[x].pe, xs[x].pt) : std::make_pair(xs[x].he, xs[x].ht); auto ky = alongP ? std::make_pair(xs[y].pe, xs[y].pt) : std::make_pair(xs[y].he, xs[y].ht); return kx < ky; });
        const Poly& A = alongP ? P : H; const Poly& B = alongP ? H : P;
        for (size_t k = 0; k < o.size(); ++k) { // arc from crossing o[k] to the next
            const X& x = xs[o[k]]; const X& y = xs[o[(k + 1) % o.size()]]; size_t e = alongP ? x.pe : x.he, e2 = alongP ? y.pe : y.he;
            V from = at(x), to = (e == e2 && o.size() > 1 && (k + 1 < o.size())) ? at(y) : A[(e + 1) % A.size()];
            V mid = (from + to) * 0.5L; bool in = insideRaw(mid, B);
            if (alongP ? !in : in) uf[find(o[k])] = find(o[(k + 1) % o.size()]);
        }
    };
    join(true); join(false);
    std::set<int> roots; for (size_t i = 0; i < xs.size(); ++i) roots.insert(find((int)i)); m.pieces = (int)roots.size();
    return m;
}
// outer outline of the union of two polygons that cross or lie in one another; ring when the union surrounds something
struct Union { bool clear = true, ring = false; Poly outer; };
static Union unite(Poly A, Poly B, R eps) {
    Union u; if (sarea(A) < 0) std::reverse(A.begin(), A.end()); if (sarea(B) < 0) std::reverse(B.begin(), B.end());
    for (auto& v : A) if (distToBoundary(v, B) < eps) u.clear = false;
    for (auto& v : B) if (distToBoundary(v, A) < eps) u.clear = false;
    struct X { size_t e[2]; R t[2]; V at; bool aOut; size_t next[2]; }; std::vector<X> xs;
    for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < B.size(); ++j) {
        V a = A[i], b = A[(i + 1) % A.size()], p = B[j], q = B[(j + 1) % B.size()]; if (!crossProper(a, b, p, q)) continue;
        R den = cross(b - a, q - p); if (fabsl(den) < 0.25L * dist(a, b) * dist(p, q)) u.clear = false; X x; x.e[0] = i; x.e[1] = j; x.t[0] = cross(p - a, q - p) / den; x.t[1] = cross(p - a, b - a) / den; x.at = a + (b - a) * x.t[0]; xs.push_back(x);
    }
    if (!u.clear) return u;
    if (xs.empty()) { if (insideRaw(A[0], B)) u.outer = B; else if (insideRaw(B[0], A)) u.outer = A; else u.clear = false; return u; }
    for (size_t i = 0; i < xs.size(); ++i) for (size_t j = 0; j < i; ++j) if (dist(xs[i].at, xs[j].at) < eps) u.clear = false;
    for (int s = 0; s < 2; ++s) {
        std::vector<size_t> o; for (size_t i = 0; i < xs.size(); ++i) o.push_back(i); std::sort(o.begin(), o.end(), [&](size_t x, size_t y) { return std::make_pair(xs[x].e[s], xs[x].t[s]) < std::make_pair(xs[y].e[s], xs[y].t[s]); });
        for (size_t k = 0; k < o.size(); ++k) { X& x = xs[o[k]]; x.next[s] = o[(k + 1) % o.size()]; if (s == 0) { X& y = xs[x.next[0]]; V to = (k + 1 < o.size() && y.e[0] == x.e[0]) ? y.at : A[(x.e[0] + 1) % A.size()]; x.aOut = !insideRaw((x.at + to) * 0.5L, B); } }
    }
    std::vector<bool> seen(xs.size(), false); int outers = 0;
    for (size_t st = 0; st < xs.size(); ++st) if (!seen[st]) {
        Poly loop; size_t k = st; do { seen[k] = true; loop.push_back(xs[k].at); int s = xs[k].aOut ? 0 : 1; const Poly& P = s ? B : A; size_t n = xs[k].next[s], e = xs[k].e[s], f = xs[n].e[s]; if (!(e == f && xs[n].t[s] > xs[k].t[s])) do { e = (e + 1) % P.size(); loop.push_back(P[e]); } while (e != f); k = n; } while (!seen[k]);
        if (k != st) { u.clear = false; return u; } if (sarea(loop) > 0) { u.outer = loop; ++outers; } else u.ring = true;
    }
    if (outers != 1) u.clear = false; return u;
}
static Poly once(const Poly& p) { Poly q; for (size_t i = 0; i < p.size(); ++i) if (q.empty() || p[i].x != q.back().x || p[i].y != q.back().y) q.push_back(p[i]); while (q.size() > 1 && q.back().x == q[0].x && q.back().y == q[0].y) q.pop_back(); return q; } // without vertices listed twice
static Poly outlineOf(Region& r) { std::vector<Point> p = r.getRegionPoints(); p.resize(r.numberOfSides()); return once(toPoly(p)); }
struct RegionState { std::vector<Point> pts; std::vector<int> idx; size_t holes; std::vector<Point> seeds; };
static bool sameExact(const std::vector<Point>& a, const std::vector<Point>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].getX() != b[i].getX() || a[i].getY() != b[i].getY()) return false; return true; }
static RegionState stateOf(Region& r) { return {r.getRegionPoints(), ((const Region&)r).Polygon::getPoints(), r.getHoles().size(), r.getSeedPoints()}; }
static bool sameState(const RegionState& a, const RegionState& b) { return sameExact(a.pts, b.pts) && a.idx == b.idx && a.holes == b.holes && sameExact(a.seeds, b.seeds); }

// Holes on a common lattice: flush with the outline, with one another, and overlapping them, decided exactly cell by cell
namespace lattice {
const int G = 18;
struct Cells {
    char g[G][G]; Cells() { memset(g, 0, sizeof g); }
    int count() const { int n = 0; for (auto& r : g) for (char x : r) n += x; return n; }
    Cells with(const Cells& o) const { Cells r; for (int x = 0; x < G; ++x) for (int y = 0; y < G; ++y) r.g[x][y] = g[x][y] | o.g[x][y]; return r; }
    Cells without(const Cells& o) const { Cells r; for (int x = 0; x < G; ++x) for (int y = 0; y < G; ++y) r.g[x][y] = g[x][y] & !o.g[x][y]; return r; }
    bool meets(const Cells& o) const { for (int x = 0; x < G; ++x) for (int y = 0; y < G; ++y) if (g[x][y] && o.g[x][y]) return true; return false; }
    bool operator==(const Cells& o) const { return !memcmp(g, o.g, sizeof g); }
    bool pinched() const { for (int x = 0; x + 1 < G; ++x) for (int y = 0; y + 1 < G; ++y) if (g[x][y] == g[x + 1][y + 1] && g[x + 1][y] == g[x][y + 1] && g[x][y] != g[x + 1][y]) return true; return false; }
    int pieces(char of = 1) const { // of=0: pieces of the complement
        char seen[G][G]; memset(seen, 0, sizeof seen); int n = 0; std::vector<std::pair<int, int>> st;
        for (int x = 0; x < G; ++x) for (int y = 0; y < G; ++y) if (g[x][y] == of && !seen[x][y]) { ++n; seen[x][y] = 1; st.push_back({x, y}); while (!st.empty()) { auto q = st.back(); st.pop_back(); static const int d[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}}; for (auto& e : d) { int a = q.first + e[0], b = q.second + e[1]; if (a >= 0 && b >= 0 && a < G && b < G && g[a][b] == of && !seen[a][b]) { seen[a][b] = 1; st.push_back({a, b}); } } } }
        return n;
    }
    bool borders(const Cells& o) const { // an edge in common, no cell
        for (int x = 0; x < G; ++x) for (int y = 0; y < G; ++y) if (g[x][y] && ((x > 0 && o.g[x - 1][y]) || (x + 1 < G && o.g[x + 1][y]) || (y > 0 && o.g[x][y - 1]) || (y + 1 < G && o.g[x][y + 1]))) return true; return false; }
    bool touchesCorner(const Cells& o) const { for (int x = 0; x < G; ++x) for (int y = 0; y < G; ++y) if (g[x][y]) for (int e : {-1, 1}) for (int f : {-1, 1}) { int a = x + e, b = y + f; if (a >= 0 && b >= 0 && a < G && b < G && o.g[a][b] && !g[a][y] && !g[x][b] && !o.g[a][y] && !o.g[x][b]) return true; } return false; }
    Poly outline(int num, int den, int ox, int oy) const { // of one piece without pinches, corners only, counter-clockwise
        std::map<std::pair<int, int>, std::pair<int, int>> next; auto at = [&](int x, int y) { return x >= 0 && y >= 0 && x < G && y < G && g[x][y]; };
        for (int x = 0; x < G; ++x) for (int y = 0; y < G; ++y) if (g[x][y]) { if (!at(x, y - 1)) next[{x, y}] = {x + 1, y}; if (!at(x + 1, y)) next[{x + 1, y}] = {x + 1, y + 1}; if (!at(x, y + 1)) next[{x + 1, y + 1}] = {x, y + 1}; if (!at(x - 1, y)) next[{x, y + 1}] = {x, y}; }
        std::vector<std::pair<int, int>> loop; auto st = next.begin()->first, q = st; do { loop.push_back(q); q = next[q]; } while (q != st && loop.size() < 1000);
        Poly p; size_t n = loop.size(); for (size_t i = 0; i < n; ++i) { auto a = loop[(i + n - 1) % n], b = loop[i], e = loop[(i + 1) % n]; if ((b.first - a.first) * (e.second - b.second) != (b.second - a.second) * (e.first - b.first)) p.push_back(V((ox * den + (b.first - 4) * num) / (double)den, (oy * den + (b.second - 4) * num) / (double)den)); }
        return p;
    }
};
Cells block(int x0, int y0, int x1, int y1) { Cells r; for (int x = std::max(0, x0); x < std::min(G, x1); ++x) for (int y = std::max(0, y0); y < std::min(G, y1); ++y) r.g[x][y] = 1; return r; }
}
static void latticeHoles(Ctx& c) {
    using namespace lattice; Src& s = c.s; int how = s.range(0, 7), num = std::vector<int>{1, 1, 2, 3, 10, 7, 25, 1}[how], den = std::vector<int>{1, 2, 1, 10, 1, 10, 100, 5}[how]; R u = (R)num / den; int ox = s.chance(50) ? 0 : s.range(-20, 20), oy = s.chance(50) ? 0 : s.range(-20, 20); V off(ox, oy); /* decimal coordinates as one writes them, which the clipping resolution does not change */ double scale = s.pick({1e5, 1e5, 1e4, 1e6}); DelynoiConfig::instance()->setScale(scale);
    int W = 13 - s.range(3, 10), H = 13 - s.range(3, 10); Cells O = block(4, 4, 4 + W, 4 + H); if (s.chance(40)) { Cells t = O.without(block(s.range(4, 12), s.range(4, 12), s.range(4, 18), s.range(4, 18))); if (t.count() && t.pieces() == 1 && t.pieces(0) == 1 && !t.pinched()) O = t; }
    auto given = [&](const Cells& q) { Poly p = q.outline(num, den, ox, oy); if (s.chance(40)) std::reverse(p.begin(), p.end()); return rotated(p, s.range(0, (int)p.size() - 1)); };
    Poly p = given(O); c.desc << "lattice " << u << " scale " << scale << " outline" << show(p); std::vector<Point> pp = toPts(p); Region r(pp); std::vector<Cells> holes; std::vector<Poly> asGiven; Cells start = O, all; int n = s.range(1, 7); R res = 1 / (R)scale;
    auto centre = [&](int x, int y) { return dbl(V(off.x + (x - 3.5L) * u, off.y + (y - 3.5L) * u)); };
    auto shape = [&](const Poly& q) { Cells r; for (int x = 0; x < G; ++x) for (int y = 0; y < G; ++y) r.g[x][y] = insideRaw(centre(x, y), q); return r; };
    for (int k = 0; k < n; ++k) {
        bool within = s.chance(60); int x0 = 0, y0 = 0; Cells h; for (int tries = holes.empty() || s.chance(40) ? 1 : 5; tries-- > 0;) { // mostly one near a hole that is there, if any
            x0 = within ? s.range(5, 3 + W) : s.range(2, 4 + W); y0 = within ? s.range(5, 3 + H) : s.range(2, 4 + H); int m = within ? 3 : 5; h = block(x0, y0, x0 + s.range(1, m), y0 + s.range(1, m)); bool near = false; for (auto& q : holes) near |= q.meets(h) || q.borders(h) || q.touchesCorner(h); if (near) break; }
        if (s.chance(35)) { Cells t = h.with(block(s.range(x0 - 2, x0 + 2), s.range(y0 - 2, y0 + 2), x0 + s.range(1, 7), y0 + s.range(1, 7))); if (t.pieces() == 1 && t.pieces(0) == 1 && !t.pinched()) h = t; }
        Cells U = h; std::vector<Cells> rest; std::vector<Poly> restGiven; bool joined = false; for (size_t i = 0; i < holes.size(); ++i) if (holes[i].meets(h)) { U = U.with(holes[i]); joined = true; } else { rest.push_back(holes[i]); restGiven.push_back(asGiven[i]); }
        Cells O2 = O.without(U); if (U.pinched() || O2.pinched()) continue; 
        bool split = O2.pieces() != 1; Cells outside = Cells(); for (auto& row : outside.g) for (char& x : row) x = 1; outside = outside.without(O);
        bool inside = O2.pieces(0) > 1, away = !U.meets(O), flush = !U.meets(outside) && U.borders(outside); bool flushHole = false; for (auto& q : rest) flushHole |= q.borders(U);
        Poly hp = given(h); c.desc << " + hole" << show(hp); std::vector<Point> pts = toPts(hp); PolygonalHole ph(pts); Hole hole = ph; RegionState before = stateOf(r); bool threw = false; std::string what;
        try { r.addHole(hole); } catch (const std::exception& e) { threw = true; what = e.what(); }
        if (split) { c.label("lattice: rejected"); CHECK(threw, "a hole which leaves " << O2.pieces() << " pieces was not rejected"); CHECK(sameState(before, stateOf(r)), "the region changed although the hole was rejected"); continue; }
        CHECK(!threw, "a hole leaving one piece was rejected: " << what); c.nontrivial = true; holes = rest; asGiven = restGiven;
        // holes joined to one that does no more than border the outline: cut out or listed, the shape is the same
        if (joined && flush && r.getHoles().size() == rest.size() + 1) { inside = true; c.label("lattice: bordering the outline, listed"); }
        if (inside) { c.label(flushHole ? "lattice: inside, flush with another hole" : joined ? "lattice: inside, joined" : "lattice: inside"); holes.push_back(U); asGiven.push_back(joined ? Poly() : hp); } else { c.label(away ? "lattice: outside" : flush ? "lattice: flush with the outline" : joined ? "lattice: crossing, joined" : "lattice: crossing"); O = O2; }
        Poly out = outlineOf(r); R area = O.count() * u * u, per = perimeter(out) + perimeter(p) + 40 * u; CHECK(fabsl(parea(out) - area) <= 4 * res * per + 1e-9L, "the outline has area " << parea(out) << " instead of " << area); CHECK(shape(out) == O, "the outline is not the given one minus the holes");
        Poly want = O.outline(num, den, ox, oy); for (auto& v : want) { R b = 1e30L; for (auto& w : out) b = std::min(b, dist(v, w)); CHECK(b <= res + 1e-9L * (1 + len(v)), "the outline has no corner at " << show(v)); }
        CHECK(r.getHoles().size() == holes.size(), r.getHoles().size() << " interior holes are listed instead of " << holes.size());
        for (size_t i = 0; i < holes.size(); ++i) { Poly q = once(toPoly(r.getHoles()[i].getPoints())); CHECK(shape(q) == holes[i] && fabsl(parea(q) - holes[i].count() * u * u) <= 4 * res * per + 1e-9L, "interior hole " << i << " does not have its shape"); if (!asGiven[i].empty()) { CHECK(q.size() == asGiven[i].size(), "interior hole " << i << " changed"); for (size_t j = 0; j < q.size(); ++j) CHECK(q[j].x == asGiven[i][j].x && q[j].y == asGiven[i][j].y, "interior hole " << i << " moved"); } }
        for (int x = 0; x < G; ++x) for (int y = 0; y < G; ++y) if ((7 * x + 3 * y + k) % 10 == 0) { V q = centre(x, y); CHECK(r.containsPoint(toP(q)) == (O.g[x][y] != 0), "point " << show(q) << (O.g[x][y] ? " should" : " should not") << " be in the outline"); }
        // and meshes cover exactly that shape
        if (k + 1 == n || s.chance(20)) {
            Cells D = O; for (auto& q : holes) D = D.without(q); Domain e; e.outline = out; e.scale = u; for (size_t i = 0; i < holes.size(); ++i) { HoleSpec hs; hs.pts = once(toPoly(r.getHoles()[i].getPoints())); e.holes.push_back(hs); } if (!D.count()) continue; bool pinched = D.pinched(); if (pinched) c.label("lattice: meshed, touching at a corner"); if (D.pieces() != 1) c.label("lattice: meshed, divided"); // where it touches itself at a corner no single cell can belong to the corner: triangulation only
            std::vector<Point> sp; int m = s.range(0, 8); for (int i = 0; i < m; ++i) { int x = s.range(4, 3 + W), y = s.range(4, 3 + H); if (!D.g[x][y]) continue; V q = centre(x, y) + V(s.real(-0.4, 0.4) * (double)u, s.real(-0.4, 0.4) * (double)u); sp.push_back(toP(q)); } c.label("lattice: meshed");
            R tolA = 8 * res * per + 1e-6L * per; if (s.chance(50) || pinched) { TriangleDelaunayGenerator g(sp, r); Mesh<Triangle> mm = g.getConstrainedDelaunayTriangulation(); View v = view(mm); checkPartition(c, v, e, 1e-6L * (1 + u), tolA, 10, "triangulation of the region with holes", D.count() * u * u); }
            else { TriangleVoronoiGenerator g(sp, r); Mesh<Polygon> mm = g.getMesh(); View v = view(mm); checkPartition(c, v, e, 1e-4L, tolA + 1e-4L * (1 + per), 10, "Voronoi diagram of the region with holes", D.count() * u * u); }
        }
    }
}

PROPERTY(P08, 500) {
    if (c.s.chance(20)) { latticeHoles(c); return; }
    DomainOpts o; o.maxHoles = 0; o.clearance = 0.35L; Domain d = genDomain(c, o); R k = d.scale; labelDomain(c, d);
    double scale = c.s.pick({1e5, 1e5, 1e6, 1e4, 1e3}); if (scale * k < 1500) scale = 1e5;
    if (c.s.chance(15)) { V far(c.s.pick({30000.0, -30000.0, 250000.0}), c.s.pick({0.0, -40000.0, 100000.0})); for (auto& v : d.outline) v = dbl(v + far); if (scale > 1e5) scale = 1e5; c.label("far-from-origin"); }
    bool far = c.labels.count("far-from-origin") > 0;
    DelynoiConfig::instance()->setScale(scale); c.desc << "scale " << scale << " "; describe(c, d);
    int rep = c.s.chance(8) ? c.s.range(1, 3) : 0; if (rep) { c.label("repeated outline vertices"); c.desc << " (vertices repeated: " << rep << ")"; }
    std::vector<Point> p = repeated(toPts(d.outline), rep); Region r(p);
    V lo, hi; d.bbox(lo, hi); R eps = 0.14L * k; R res = 1 / (R)scale; if (far) res += 1e-9L;
    std::vector<Poly> taken; std::vector<Poly> inner; std::vector<char> merged; R outArea = parea(d.outline); std::vector<Poly> cut; int ops = 0;
    int n = c.s.range(1, 6); bool interesting = false, overlaps = c.s.chance(35), thin = false;
    for (int step = 0; step < n; ++step) {
        if (c.s.chance(12) && !inner.empty()) { r.cleanInternalHoles(); inner.clear(); merged.clear(); c.desc << " clean"; c.label("holes-cleared"); taken = cut; CHECK(r.getHoles().empty(), "holes remain after cleanInternalHoles"); continue; }
        if (c.s.chance(6) && !inner.empty()) { // a hole that is there already: nothing changes but that it is listed last, within the clipping resolution
            size_t i = c.s.range(0, (int)inner.size() - 1); Hole again = r.getHoles()[i]; c.desc << " + hole " << i << " again"; c.label("hole-added-again"); interesting = true; Poly u = inner[i]; Poly o1 = outlineOf(r);
            try { r.addHole(again); } catch (const std::exception& e) { CHECK(false, "adding a hole that is listed already was rejected: " << e.what()); } ++ops;
            CHECK(r.getHoles().size() == inner.size(), "adding a hole that is listed already gives " << r.getHoles().size() << " holes instead of " << inner.size()); Poly o2 = outlineOf(r); CHECK(o1.size() == o2.size() && std::equal(o1.begin(), o1.end(), o2.begin(), [](V a, V b) { return a.x == b.x && a.y == b.y; }), "adding a hole that is listed already changed the outline");
            inner.erase(inner.begin() + i); merged.erase(merged.begin() + i); inner.push_back(u); merged.push_back(true); if (featureSize(u) < 0.05L * k || minAngle(u) < 8) thin = true; continue;
        }
        // a hole somewhere
        bool circle = false; V ctr; R rad = 0; Poly h; int t = c.s.weighted({4, 3, 3, 2, 1});
        R W = hi.x - lo.x, Hh = hi.y - lo.y; ctr = dbl(V(lo.x - 0.1L * W + 1.2L * W * c.s.real01(), lo.y - 0.1L * Hh + 1.2L * Hh * c.s.real01()));
        if (overlaps && !inner.empty() && c.s.chance(75)) { const Poly& g = inner[c.s.range(0, (int)inner.size() - 1)]; ctr = dbl(g[c.s.range(0, (int)g.size() - 1)] + V(c.s.real(-1.5, 1.5) * k, c.s.real(-1.5, 1.5) * k)); }
        R room = -1; if (c.s.chance(40)) { V best; R br = -1; Poly cur = outlineOf(r); for (int i = 0; i < 6; ++i) { V q(lo.x + W * c.s.real01(), lo.y + Hh * c.s.real01()); if (!insideRaw(q, cur)) continue; R b = distToBoundary(q, cur); for (auto& g : taken) if (!overlaps) b = insideRaw(q, g) ? -1 : std::min(b, distToBoundary(q, g)); if (b > br) { br = b; best = q; } } if (br > 0.75L * k) { ctr = dbl(best); room = (br - 0.2L * k) / k; if (t > 1) t = 0; } }
        if (room > 0) { R f = c.s.chance(50) ? 1 : 0.5L + 0.5L * c.s.real01(); if (t == 0) { bool star; Poly u = genHolePoly(c, V(0, 0), std::max(0.5L, room * f), star); for (auto& v : u) h.push_back(dbl(ctr + v * k)); } else { circle = true; rad = (double)(k * std::max(0.5L, room * f)); DelynoiConfig::instance()->setDiscretizationGrade(c.s.pick({12, 5, 8, 30})); h = circlePts(ctr, rad, DelynoiConfig::instance()->getDiscretizationGrade()); } }
        else if (t == 0) { bool star; Poly u = genHolePoly(c, V(0, 0), 0.6L + 3 * c.s.real01(), star); for (auto& v : u) h.push_back(dbl(ctr + v * k)); }
        else if (t == 1) { circle = true; rad = (double)(k * (0.5L + 3 * c.s.real01())); DelynoiConfig::instance()->setDiscretizationGrade(c.s.pick({12, 5, 8, 30})); h = circlePts(ctr, rad, DelynoiConfig::instance()->getDiscretizationGrade()); }
        else if (t == 2) { R a = (0.35L + 8 * c.s.real01()) * k, b = (0.35L + 3 * c.s.real01()) * k; if (c.s.chance(50)) std::swap(a, b); h = {V(ctr.x - a, ctr.y - b), V(ctr.x + a, ctr.y - b), V(ctr.x + a, ctr.y + b), V(ctr.x - a, ctr.y + b)}; }
        else if (t == 3) { bool star; R turn = c.s.real01() * 6.28L; Poly u = genHolePoly(c, V(0, 0), 1 + 5 * c.s.real01(), star); for (auto& v : u) h.push_back(dbl(ctr + V(v.x * cosl(turn) - v.y * sinl(turn), v.x * sinl(turn) + v.y * cosl(turn)) * k)); }
        else { R a = std::max(W, Hh); ctr = (lo + hi) * 0.5L; h = {V(ctr.x - a, ctr.y - a), V(ctr.x + a, ctr.y - a), V(ctr.x + a, ctr.y + a), V(ctr.x - a, ctr.y + a)}; }
        if (!circle) { for (auto& v : h) v = dbl(v); if (c.s.chance(40)) std::reverse(h.begin(), h.end()); h = rotated(h, c.s.range(0, (int)h.size() - 1)); }
        if (featureSize(h) < 0.12L * k || minAngle(h) < 15) continue;
        bool ok = true, over = false; for (auto& g : taken) if (polyDist(g, h) < eps || insideRaw(g[0], h) || insideRaw(h[0], g)) ok = false;
        if (!ok && overlaps) { over = true; ok = true; for (auto& g : taken) for (auto& v : g) if (distToBoundary(v, h) < eps) ok = false; for (auto& g : taken) for (auto& v : h) if (distToBoundary(v, g) < eps) ok = false; }
        Poly cur = outlineOf(r), u = h; bool ring = false; std::vector<size_t> hit; if (over && (featureSize(cur) < 0.05L * k || minAngle(cur) < 8)) ok = false;
        for (size_t i = 0; i < inner.size() && ok; ++i) if (polyDist(inner[i], h) == 0 || insideRaw(inner[i][0], h) || insideRaw(h[0], inner[i])) { Union w = unite(u, inner[i], eps); if (!w.clear) { ok = false; break; } u = w.outer; ring |= w.ring; hit.push_back(i); }
        Meet m; if (ok) m = meet(cur, u, eps); if (!ok || !m.clear || (ring && !m.inside)) continue; if (ring) { m.inside = false; m.pieces = 2; c.label("holes-around-an-island"); }
        if (!hit.empty()) { c.label("overlapping-holes"); if (featureSize(u) < 0.05L * k || minAngle(u) < 8) thin = true; }
        // a piece which disappears in the clipping resolution is neither there nor not there
        c.desc << " + " << (circle ? "circle" : "hole") << show(h);
        int hrep = !circle && c.s.chance(8) ? c.s.range(1, 3) : 0; if (hrep) { c.label("repeated hole vertices"); c.desc << " (vertices repeated: " << hrep << ")"; }
        std::vector<Point> hp = repeated(toPts(h), hrep); Poly hq = toPoly(hp); Hole hole; if (circle) { CircularHole ch(toP(ctr), (double)rad); hole = ch; } else { PolygonalHole ph(hp); hole = ph; }
        std::vector<Point> given = hole.getPoints(); CHECK(given.size() == hq.size(), "the hole has " << given.size() << " points instead of " << hq.size());
        for (size_t i = 0; i < hq.size(); ++i) CHECK(dist(toV(given[i]), hq[i]) < 1e-9L * (1 + k + fabsl(hq[i].x) + fabsl(hq[i].y)), "hole point " << i << " is " << show(toV(given[i])) << " instead of " << show(hq[i]));
        RegionState before = stateOf(r); bool threw = false; std::string what;
        try { r.addHole(hole); } catch (const std::exception& e) { threw = true; what = e.what(); }
        if (m.pieces != 1) {
            interesting = true; c.label(m.covers ? "hole-covering" : "hole-splitting");
            CHECK(threw, "a hole which " << (m.covers ? "covers the region" : "divides the region") << " was not rejected (" << m.pieces << " pieces remain)");
            CHECK(sameState(before, stateOf(r)), "the region changed although the hole was rejected"); continue;
        }
        CHECK(!threw, "a hole leaving one piece was rejected: " << what); ++ops;
        auto drop = [&]() { for (size_t i = hit.size(); i-- > 0;) { inner.erase(inner.begin() + hit[i]); merged.erase(merged.begin() + hit[i]); } };
        if (m.inside) {
            c.label("hole-interior"); interesting = true;
            CHECK(r.getHoles().size() == before.holes + 1 - hit.size(), "interior hole: " << r.getHoles().size() << " holes are listed, expected " << before.holes + 1 - hit.size());
            CHECK(!hit.empty() || sameExact(r.getHoles().back().getPoints(), given), "interior hole is not listed unchanged");
            RegionState now = stateOf(r); std::vector<Point> o1(before.pts.begin(), before.pts.begin() + r.numberOfSides()), o2(now.pts.begin(), now.pts.begin() + r.numberOfSides());
            CHECK(now.idx == before.idx && sameExact(o1, o2), "an interior hole changed the outline");
            taken.push_back(h); drop(); inner.push_back(u); merged.push_back(!hit.empty());
        } else if (m.outside) {
            c.label("hole-outside"); CHECK(r.getHoles().size() == before.holes, "a hole outside of the region is listed as interior"); taken.push_back(h); cut.push_back(h);
        } else {
            c.label("hole-crossing-" + std::to_string(std::min(m.crossings, 6))); interesting = true; outArea -= interArea(over ? cur : d.outline, u);
            CHECK(r.getHoles().size() == before.holes - hit.size(), "a hole crossing the outline is listed as interior, or one that it overlaps is still listed"); taken.push_back(h); drop(); cut.push_back(u);
        }
        CHECK(sameExact(r.getSeedPoints(), before.seeds), "adding a hole changed the seeds");
        // the region is the original outline minus the holes
        Poly out = outlineOf(r); R per = perimeter(d.outline); for (auto& g : cut) per += perimeter(g);
        CHECK(fabsl(parea(out) - outArea) <= (ops + 1) * 3 * res * per, "outline has area " << parea(out) << ", expected " << outArea);
        // corners away from the holes stay where they were, to the nearest point of the clipping resolution, however many holes follow
        for (size_t i = 0; i < d.outline.size(); ++i) {
            const Poly& D = d.outline; V v = D[i], e1 = v - D[(i + D.size() - 1) % D.size()], e2 = D[(i + 1) % D.size()] - v; bool near = fabsl(cross(e1, e2)) < 0.1L * len(e1) * len(e2);
            for (auto& g : cut) near |= insideRaw(v, g) || distToBoundary(v, g) < 1e-2L * k; if (near) continue;
            R lim = 0.5L * res + 1e-9L * (1 + fabsl(v.x) + fabsl(v.y)), best = 1e30L; V at; for (auto& w : out) { R m = std::max(fabsl(w.x - v.x), fabsl(w.y - v.y)); if (m < best) { best = m; at = w; } }
            CHECK(best <= lim, "corner " << show(v) << " of the outline, which no hole comes near, moved to " << show(at)); }
        CHECK(r.getHoles().size() == inner.size(), "there are " << r.getHoles().size() << " interior holes, expected " << inner.size());
        for (size_t i = 0; i < inner.size(); ++i) { Poly g = once(toPoly(r.getHoles()[i].getPoints())); if (merged[i]) { R lim = 16 * (ops + 1) * res; CHECK(g.size() >= 3 && fabsl(parea(g) - parea(inner[i])) <= lim * (perimeter(g) + perimeter(inner[i])), "the hole made of overlapping ones has area " << parea(g) << " instead of " << parea(inner[i])); for (auto& v : g) CHECK(distToBoundary(v, inner[i]) <= lim, "vertex " << show(v) << " of the hole made of overlapping ones is not on its outline"); for (auto& v : inner[i]) CHECK(distToBoundary(v, g) <= lim, "the outline of the hole made of overlapping ones misses " << show(v)); CHECK(insideRaw(toV(r.getHoles()[i].getCenter()), g), "the centre of the hole made of overlapping ones is not in it"); continue; }
            CHECK(g.size() == inner[i].size(), "interior hole " << i << " changed"); for (size_t j = 0; j < g.size(); ++j) CHECK(dist(g[j], inner[i][j]) < 1e-9L * (1 + k + fabsl(g[j].x) + fabsl(g[j].y)), "interior hole " << i << " moved"); }
        R tol = (ops + 1) * 4 * res;
        auto probe = [&](V q) {
            R b = distToBoundary(q, d.outline); for (auto& g : cut) b = std::min(b, distToBoundary(q, g)); for (auto& g : inner) b = std::min(b, distToBoundary(q, g)); if (b <= tol + 1e-3L * k) return;
            bool want = insideRaw(q, d.outline); for (auto& g : cut) if (insideRaw(q, g)) want = false; bool wantHole = false; for (auto& g : inner) if (insideRaw(q, g)) wantHole = true;
            CHECK(r.containsPoint(toP(q)) == want, "point " << show(q) << (want ? " should" : " should not") << " be inside the outline after the holes were added");
            int nh = 0; for (Hole& g : r.getHoles()) if (g.containsPoint(toP(q))) ++nh; CHECK((nh > 0) == wantHole, "point " << show(q) << " is in " << nh << " interior holes");
        };
        for (int i = 0; i < 12; ++i) probe(dbl(V(c.s.real((double)lo.x, (double)hi.x), c.s.real((double)lo.y, (double)hi.y))));
        for (auto& v : h) for (R s : {0.97L, 1.03L}) probe(dbl(centroid(h) + (v - centroid(h)) * s));
    }
    if (interesting) c.nontrivial = true;
    if (c.s.chance(25)) { // the clipping helper by itself: parent minus child, as counter-clockwise outer and clockwise inner pieces
        V ctr(lo.x + (hi.x - lo.x) * c.s.real01(), lo.y + (hi.y - lo.y) * c.s.real01()); bool star; Poly h, u = genHolePoly(c, V(0, 0), 1 + 4 * c.s.real01(), star); for (auto& v : u) h.push_back(dbl(ctr + v * k)); if (c.s.chance(40)) std::reverse(h.begin(), h.end());
        if (featureSize(h) >= 0.12L * k && minAngle(h) >= 15 && meet(d.outline, h, eps).clear) {
            c.desc << " clip" << show(h); ClipperLib::Paths got = ClipperWrapper::polyIntersection(toPts(d.outline), toPts(h), (int)scale); R a = 0; std::vector<Poly> pieces; for (auto& g : got) { Poly q; for (auto& v : g) q.push_back(V(v.X / (R)scale, v.Y / (R)scale)); a += sarea(q); pieces.push_back(q); }
            R per = perimeter(d.outline) + perimeter(h), want = parea(d.outline) - interArea(d.outline, h); CHECK(fabsl(a - want) <= 4 * res * per, "clipping gives area " << a << " instead of " << want); c.label("clipping-helper");
            for (int i = 0; i < 8; ++i) { V q = dbl(V(c.s.real((double)lo.x, (double)hi.x), c.s.real((double)lo.y, (double)hi.y))); if (distToBoundary(q, d.outline) < 4 * res + 1e-3L * k || distToBoundary(q, h) < 4 * res + 1e-3L * k) continue; int in = 0; for (auto& g : pieces) in += insideRaw(q, g); bool w = insideRaw(q, d.outline) && !insideRaw(q, h); CHECK((in % 2 == 1) == w, "point " << show(q) << (w ? " is not" : " is") << " in the clipped pieces"); }
        }
    }
    // meshes cover exactly that shape
    Domain e; e.outline = outlineOf(r); e.scale = k; for (size_t i = 0; i < inner.size(); ++i) { HoleSpec hs; hs.pts = merged[i] ? once(toPoly(r.getHoles()[i].getPoints())) : inner[i]; e.holes.push_back(hs); } bool some = std::count(merged.begin(), merged.end(), 1) > 0; R slack = some ? 16 : 4;
    // a corner that turns so little, at so small a scale, that it is straight within the tolerance is neither there nor not there
    auto nearlyStraight = [](const Poly& p) { size_t n = p.size(); for (size_t i = 0; i < n; ++i) { V a = p[(i + 1) % n] - p[i], b = p[(i + 2) % n] - p[(i + 1) % n]; R s = fabsl(cross(a, b)) / (len(a) * len(b)); if (dot(a, b) > 0 && s > 1e-7L && s < 0.05L) return true; } return false; };
    if (k < 1) { thin |= nearlyStraight(e.outline); for (auto& h : e.holes) thin |= nearlyStraight(h.pts); }
    if (far || thin || featureSize(e.outline) < 0.05L * k || minAngle(e.outline) < 8) return;
    SeedOpts so; so.max = 15; so.bigChance = 0; so.boundary = false; Seeds s = genSeeds(c, e, so); describe(c, s); std::vector<Point> sp = seedPts(s); c.label("meshed");
    R want = outArea; for (auto& g : inner) want -= parea(g); R per = e.perim(); for (auto& g : cut) per += perimeter(g);
    if (c.s.chance(50)) { TriangleDelaunayGenerator g(sp, r); Mesh<Triangle> m = g.getConstrainedDelaunayTriangulation(); View v = view(m); checkPartition(c, v, e, 1e-6L * (1 + k), (ops + 1) * slack * res * per + 1e-6L * per, 10, "triangulation of the region with holes", want); }
    else { TriangleVoronoiGenerator g(sp, r); Mesh<Polygon> m = g.getMesh(); View v = view(m); checkPartition(c, v, e, 1e-4L, (ops + 1) * slack * res * per + 1e-4L * (1 + per), 10, "Voronoi diagram of the region with holes", want); }
}

// ---------------------------------------------------------------- P09
struct Live { Region r; std::vector<Point> seeds; std::vector<Poly> holes; };
static int stand(Region& r, const std::vector<Poly>& holes, V q, R k) { // +1 keep, -1 drop, 0 cannot tell
    Poly out = outlineOf(r); R b = distToBoundary(q, out); int w;
    if (b <= 1e-9L * (1 + k)) { w = 0; for (size_t i = 0; i < out.size(); ++i) { V a = out[i], e = out[(i + 1) % out.size()]; if ((a.x == q.x && a.y == q.y) || (a.x == e.x && q.x == a.x && q.y >= std::min(a.y, e.y) && q.y <= std::max(a.y, e.y)) || (a.y == e.y && q.y == a.y && q.x >= std::min(a.x, e.x) && q.x <= std::max(a.x, e.x))) w = 1; } }
    else if (b < 1e-3L) return 0; else w = insideRaw(q, out) ? 1 : -1;
    if (w == -1) return -1;
    for (auto& h : holes) { R hb = distToBoundary(q, h); if (hb < 1e-3L) return 0; if (insideRaw(q, h)) return -1; }
    return w;
}
static void settle(Live& l, std::vector<Point> pending, R k, const char* what, bool exact, size_t firstNew) {
    std::vector<Point> got = l.r.getSeedPoints(); size_t j = 0;
    auto same = [&](const Point& a, const Point& b, bool ex) { if (ex) return a.getX() == b.getX() && a.getY() == b.getY(); R t = 1e-9L * (1 + fabs(a.getX()) + fabs(a.getY())); return fabsl(a.getX() - b.getX()) <= t && fabsl(a.getY() - b.getY()) <= t; };
    for (size_t i = 0; i < pending.size(); ++i) {
        int w = stand(l.r, l.holes, toV(pending[i]), k); bool here = j < got.size() && same(got[j], pending[i], exact || i < firstNew);
        if (w > 0) { CHECK(here, what << ": seed " << show(toV(pending[i])) << " (number " << i << " of " << pending.size() << ") is missing at position " << j << " of the list of " << got.size()); ++j; }
        else if (w == 0 && here) ++j;
        else if (w < 0 && here) { // tolerable only if the next kept one is identical
            bool dupLater = false; for (size_t t = i + 1; t < pending.size() && !dupLater; ++t) dupLater = same(pending[t], pending[i], exact) ;
            CHECK(dupLater && false, what << ": point " << show(toV(pending[i])) << " outside of the domain or in a hole stays in the list"); }
    }
    CHECK(j == got.size(), what << ": the list has " << got.size() << " seeds, " << j << " expected; first unexpected " << (j < got.size() ? show(toV(got[j])) : std::string("-")));
    l.seeds = got;
}
PROPERTY(P09, 500) {
    DomainOpts o; o.maxHoles = 0; Domain d = genDomain(c, o); labelDomain(c, d); describe(c, d); R k = d.scale; V lo, hi; d.bbox(lo, hi);
    int rep = c.s.chance(6) ? c.s.range(1, 3) : 0; if (rep) { c.label("repeated outline vertices"); c.desc << " (vertices repeated: " << rep << ")"; }
    std::vector<Point> op = repeated(toPts(d.outline), rep); std::vector<Live> live; live.push_back({Region(op), {}, {}});
    int n = c.s.range(1, 9); int adds = 0, drops = 0, copies = 0;
    for (int step = 0; step < n; ++step) {
        size_t at = c.s.range(0, (int)live.size() - 1); Live& l = live[at]; std::vector<Point> before = l.seeds;
        int t = c.s.weighted({5, 3, 3, 3, 1, 2, 1});
        if (t == 0 || t == 2) {
            std::vector<Point> add; bool bulk = c.s.chance(4); int m = bulk ? c.s.range(40, 400) : c.s.range(0, 12); uint64_t lcg = bulk ? c.s.raw() : 0; auto rnd = [&]() { if (!bulk) return (R)c.s.real01(); lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL; return (lcg >> 33) / 2147483648.0L; }; if (bulk) c.label("many-at-once"); auto segs = d.segments();
            for (int i = 0; i < m; ++i) {
                int w = bulk ? (int)(rnd() * 10) : c.s.weighted({6, 2, 1, 1}); if (bulk) w = w < 6 ? 0 : w < 9 ? 1 : 2; V q;
                if (w == 0) { R rx = rnd(), ry = rnd(); q = dbl(V(lo.x - 1 * k + (hi.x - lo.x + 2 * k) * rx, lo.y - 1 * k + (hi.y - lo.y + 2 * k) * ry)); }
                else if (w == 1) { auto& e = segs[bulk ? (int)(rnd() * segs.size()) : c.s.range(0, (int)segs.size() - 1)]; R f = (bulk ? 1 + (int)(rnd() * 15) : c.s.range(1, 15)) / 16.0L; if (e.first.x == e.second.x) q = dbl(V(e.first.x, e.first.y + f * (e.second.y - e.first.y))); else if (e.first.y == e.second.y) q = dbl(V(e.first.x + f * (e.second.x - e.first.x), e.first.y)); else q = e.first; }
                else if (w == 2) q = d.outline[bulk ? (int)(rnd() * d.outline.size()) : c.s.range(0, (int)d.outline.size() - 1)];
                else q = l.seeds.empty() ? d.outline[0] : toV(l.seeds[c.s.range(0, (int)l.seeds.size() - 1)]);
                add.push_back(toP(q));
            }
            std::vector<Point> pend = before; pend.insert(pend.end(), add.begin(), add.end());
            if (t == 0) { c.desc << " add@" << at << show(toPoly(add)); std::vector<Point> arg = add; l.r.addSeedPoints(arg); CHECK(sameExact(arg, add), "addSeedPoints changed its argument"); settle(l, pend, k, "addSeedPoints", true, 0); }
            else { c.desc << " file@" << at << show(toPoly(add)); std::ostringstream f; f << std::setprecision(17) << add.size() << "\n"; for (auto& q : add) f << q.getX() << (c.s.chance(30) ? "  " : " ") << q.getY() << "\n"; std::string path = homeDir() + "seeds.txt"; spit(path, f.str()); l.r.addSeedsFromFile("seeds.txt"); settle(l, pend, k, "addSeedsFromFile", true, 0); c.label("from-file"); }
            adds += (int)add.size(); drops += (int)(pend.size() - l.seeds.size());
        } else if (t == 1) {
            int nx = c.s.range(1, 6), ny = c.s.range(1, 6); double fx = c.s.pick({1.0, 1.0, 0.5, 1.1}); c.desc << " grid@" << at << " " << nx << "x" << ny << "*" << fx; c.label("from-generator");
            PointGenerator g(fx == 1.0 ? functions::constant() : functions::uniform(fx), functions::constant());
            Poly out = outlineOf(l.r); V l2 = out[0], h2 = out[0]; for (auto& v : out) { l2.x = std::min(l2.x, v.x); l2.y = std::min(l2.y, v.y); h2.x = std::max(h2.x, v.x); h2.y = std::max(h2.y, v.y); }
            std::vector<Point> pend = before; for (int i = 0; i < ny; ++i) for (int j = 0; j < nx; ++j) pend.push_back(toP(V(fx * (l2.x + (nx > 1 ? j * (h2.x - l2.x) / (nx - 1) : 0)), l2.y + (ny > 1 ? i * (h2.y - l2.y) / (ny - 1) : 0))));
            l.r.generateSeedPoints(g, nx, ny); settle(l, pend, k, "generateSeedPoints", false, before.size()); adds += nx * ny; drops += (int)(pend.size() - l.seeds.size());
        } else if (t == 3) { int count = c.s.chance(25) ? c.s.range(4, 14) : 1; for (int hn = 0; hn < count; ++hn) {
            V ctr = dbl(V(lo.x + (hi.x - lo.x) * c.s.real01(), lo.y + (hi.y - lo.y) * c.s.real01())); bool star; Poly h; bool circle = c.s.chance(40); R rad = (double)(k * (0.5L + (count > 1 ? 0.4L : 2) * c.s.real01()));
            if (circle) h = circlePts(ctr, rad, 12); else { Poly u = genHolePoly(c, V(0, 0), rad / k, star); for (auto& v : u) h.push_back(dbl(ctr + v * k)); }
            if (featureSize(h) < 0.12L * k || minAngle(h) < 15) continue;
            Poly cur = outlineOf(l.r); Meet m = meet(cur, h, 0.14L * k); bool ok = m.clear && !m.outside; for (auto& g : l.holes) if (polyDist(g, h) < 0.14L * k || insideRaw(g[0], h) || insideRaw(h[0], g)) ok = false;
            if (!ok) continue;
            c.desc << " hole@" << at << show(h); std::vector<Point> hp = toPts(h);
            try { if (circle) { CircularHole ch(toP(ctr), (double)rad); l.r.addHole(ch); } else { PolygonalHole ph(hp); l.r.addHole(ph); } if (m.inside) l.holes.push_back(h); c.label(m.inside ? "hole-interior" : "hole-crossing"); }
            catch (const std::invalid_argument&) { c.label("hole-rejected"); }
            CHECK(sameExact(l.r.getSeedPoints(), before), "adding a hole changed the seed list"); if (l.holes.size() > 3) c.label("more-than-3-holes"); }
        } else if (t == 4) { c.desc << " clear@" << at; l.r.cleanSeedPoints(); CHECK(l.r.getSeedPoints().empty(), "cleanSeedPoints left seeds"); l.seeds.clear(); c.label("cleared"); }
        else if (t == 5) { if (live.size() >= 4) continue; c.desc << " copy@" << at; ++copies; c.label("copied");
            if (c.s.chance(60)) { Region cp(l.r); Live nl{cp, l.seeds, l.holes}; live.push_back(nl); } else { std::vector<Point> tri = {Point(0, 0), Point(1, 0), Point(0, 1)}; Region cp(tri); cp = l.r; Live nl{cp, l.seeds, l.holes}; live.push_back(nl); }
            CHECK(sameExact(live.back().r.getSeedPoints(), live[at].seeds), "a copy of the region has other seeds"); }
        else { c.desc << " unhole@" << at; l.r.cleanInternalHoles(); l.holes.clear(); CHECK(sameExact(l.r.getSeedPoints(), before), "clearing the holes changed the seed list"); }
        for (size_t i = 0; i < live.size(); ++i) CHECK(sameExact(live[i].r.getSeedPoints(), live[i].seeds), "an operation on region " << at << " changed the seeds of region " << i);
        { std::vector<Point> mine = live[0].r.getSeedPoints(); if (!mine.empty()) { mine[0].setX(12345); mine.pop_back(); CHECK(sameExact(live[0].r.getSeedPoints(), live[0].seeds), "changing the returned list changes the region"); } }
    }
    if (drops > 0) c.label("dropped"); if (adds > drops && adds > 0) c.label("kept");
    c.nontrivial = adds > 0 && drops > 0;
}

// ---------------------------------------------------------------- P11
PROPERTY(P11, 400) {
    DomainOpts o; o.maxHoles = 0; o.maxTranslate = 300; Domain d = genDomain(c, o); labelDomain(c, d); describe(c, d); R k = d.scale; const Poly& P = d.outline; V lo, hi; d.bbox(lo, hi);
    std::vector<Point> pts = toPts(P); size_t n = P.size();
    // polygon over shuffled indices with unrelated points in the list
    std::vector<Point> pool; std::vector<int> idx(n); int extra = c.s.range(0, 3);
    for (int i = 0; i < extra; ++i) pool.push_back(Point(c.s.range(-50, 50), c.s.range(-50, 50)));
    for (size_t i = 0; i < n; ++i) { idx[(i * 1 + 0)] = (int)pool.size(); pool.push_back(pts[i]); }
    Polygon poly(pts), ip(idx, pool); int rep = c.s.chance(10) ? c.s.range(1, 3) : 0; if (rep) { c.desc << " (vertices repeated: " << rep << ")"; c.label("repeated outline vertices"); } std::vector<Point> given = repeated(pts, rep); Region reg(given); PolygonalHole hole(given); Hole& hb = hole;
    auto isEdge = [&](const IndexSegment& s, const std::vector<int>& ids) { for (size_t i = 0; i < ids.size(); ++i) { int a = ids[i], b = ids[(i + 1) % ids.size()]; if ((s.getFirst() == a && s.getSecond() == b) || (s.getFirst() == b && s.getSecond() == a)) return true; } return false; };
    std::vector<int> triv(n); for (size_t i = 0; i < n; ++i) triv[i] = (int)i; R len0 = 1e30L, len1 = 0; for (size_t i = 0; i < n; ++i) { len0 = std::min(len0, dist(P[i], P[(i + 1) % n])); len1 = std::max(len1, dist(P[i], P[(i + 1) % n])); }
    R amax = 1; for (auto& v : P) amax = std::max(amax, std::max(fabsl(v.x), fabsl(v.y))); int kinds[4] = {0, 0, 0, 0};
    int m = c.s.range(6, 30);
    for (int i = 0; i < m; ++i) {
        int t = c.s.weighted({4, 4, 2, 3, 2, 2, 2}); V q; bool on = false;
        if (t == 0) q = dbl(V(lo.x + (hi.x - lo.x) * (1.2L * c.s.real01() - 0.1L), lo.y + (hi.y - lo.y) * (1.2L * c.s.real01() - 0.1L)));
        else if (t == 1) { size_t e = c.s.range(0, (int)n - 1); V a = P[e], b = P[(e + 1) % n]; q = dbl(a + (b - a) * (c.s.range(1, 63) / 64.0L)); on = true; }
        else if (t == 2) { q = P[c.s.range(0, (int)n - 1)]; on = true; }
        else if (t == 3) { V v = P[c.s.range(0, (int)n - 1)]; q = dbl(V(lo.x + (hi.x - lo.x) * (1.2L * c.s.real01() - 0.1L), v.y)); }  // level with a vertex
        else if (t == 4) { V v = P[c.s.range(0, (int)n - 1)]; q = dbl(V(v.x, lo.y + (hi.y - lo.y) * (1.2L * c.s.real01() - 0.1L))); }
        else if (t == 6) { size_t e = c.s.range(0, (int)n - 1); V a = P[e], b = P[(e + 1) % n], u = b - a; R L = len(u); q = dbl(a + u * (c.s.range(1, 63) / 64.0L) + V(-u.y, u.x) * ((c.s.chance(50) ? 1 : -1) * c.s.pick({4e-6L, 1e-6L, 1e-8L}) / (L * std::max(L, (R)1)))); on = true; c.label("within the tolerance of an edge"); }
        else { // near an edge, beyond an end of it, on its line
            size_t e = c.s.range(0, (int)n - 1); V a = P[e], b = P[(e + 1) % n]; V u = b - a; if (c.s.chance(50)) q = dbl(a + u * (c.s.chance(50) ? -0.05L - c.s.real01() : 1.05L + c.s.real01())); else q = dbl(a + u * c.s.real01() + V(-u.y, u.x) * ((c.s.chance(50) ? 1 : -1) * 0.02L)); }
        R db = distToBoundary(q, P);
        // "on" within rounding; off when clear of every edge by more than the tolerance, seen through the library's area test
        if (db <= 1e-12L * amax * 4) on = true;
        if (!on) { if (db < 2e-4L || db * len0 < 2e-4L) continue; } else { R off = 1e30L; for (size_t e = 0; e < n; ++e) if (distPS(q, P[e], P[(e + 1) % n]) < 1e-5L) off = std::min(off, fabsl(orient(P[e], P[(e + 1) % n], q))); if (off + 4e-16L * len1 * len1 > 8e-6L) continue; }
        bool in = on || insideRaw(q, P); ++kinds[on ? 2 : in ? 1 : 0]; Point qp = toP(q);
        c.desc << " q" << show(q);
        CHECK(poly.containsPoint(pts, qp) == in, "Polygon::containsPoint(" << show(q) << ") is " << !in); CHECK(poly.inEdges(pts, qp) == on, "Polygon::inEdges(" << show(q) << ") is " << !on);
        CHECK(ip.containsPoint(pool, qp) == in, "indexed Polygon::containsPoint(" << show(q) << ") is " << !in); CHECK(ip.inEdges(pool, qp) == on, "indexed Polygon::inEdges(" << show(q) << ") is " << !on);
        CHECK(reg.containsPoint(qp) == in, "Region::containsPoint(" << show(q) << ") is " << !in); CHECK(reg.inEdges(qp) == on, "Region::inEdges(" << show(q) << ") is " << !on);
        CHECK(hb.containsPoint(qp) == in, "Hole::containsPoint(" << show(q) << ") is " << !in);
        for (int w = 0; w < 2; ++w) {
            IndexSegment s = w ? ip.containerEdge(pool, qp) : poly.containerEdge(pts, qp);
            if (!on) CHECK(s.getFirst() == -1 && s.getSecond() == -1, "containerEdge of " << show(q) << " is (" << s.getFirst() << "," << s.getSecond() << ")");
            else { CHECK(isEdge(s, w ? idx : triv), "containerEdge (" << s.getFirst() << "," << s.getSecond() << ") is not an edge"); auto& l = w ? pool : pts; R e = distPS(q, toV(l[s.getFirst()]), toV(l[s.getSecond()])); CHECK(e <= 3e-5L, "the container edge of " << show(q) << " is " << e << " away from it"); }
        }
    }
    { // bounding box, given by any two opposite corners
        BoundingBox rb = reg.getBox(); CHECK((R)rb.xMin() == lo.x && (R)rb.yMin() == lo.y && (R)rb.xMax() == hi.x && (R)rb.yMax() == hi.y, "Region::getBox is wrong");
        bool fx = c.s.chance(50), fy = c.s.chance(50); BoundingBox bb(toP(V(fx ? hi.x : lo.x, fy ? hi.y : lo.y)), toP(V(fx ? lo.x : hi.x, fy ? lo.y : hi.y)));
        for (int i = 0; i < 8; ++i) { V q = dbl(V(c.s.chance(25) ? (c.s.chance(50) ? lo.x : hi.x) : lo.x + (hi.x - lo.x) * (1.6L * c.s.real01() - 0.3L), c.s.chance(25) ? (c.s.chance(50) ? lo.y : hi.y) : lo.y + (hi.y - lo.y) * (1.6L * c.s.real01() - 0.3L))); bool in = q.x >= lo.x && q.x <= hi.x && q.y >= lo.y && q.y <= hi.y; CHECK(bb.contains(toP(q)) == in, "BoundingBox::contains(" << show(q) << ") is " << !in); }
    }
    c.nontrivial = kinds[0] && kinds[1] && kinds[2]; if (n > 4) c.label("many-sided");
    (void)k;
}
