// Generators: outlines, holes, domains, seed sets. All coordinates handed to the library are doubles;
// the oracle sees exactly the same doubles.
#pragma once
#include "core.h"
#include "geom.h"
#include <delynoi/models/Region.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/hole/PolygonalHole.h>

struct HoleSpec { Poly pts; bool circle = false; V c; R r = 0; };
struct Domain {
    Poly outline; std::vector<HoleSpec> holes; std::string kind; R scale = 1; int repeats = 0;
    R area() const { R a = parea(outline); for (auto& h : holes) a -= parea(h.pts); return a; }
    R perim() const { R a = perimeter(outline); for (auto& h : holes) a += perimeter(h.pts); return a; }
    R distBoundary(V q) const { R m = distToBoundary(q, outline); for (auto& h : holes) m = std::min(m, distToBoundary(q, h.pts)); return m; }
    // +1 strictly inside (by eps), 0 near a boundary, -1 outside or in a hole
    int locate(V q, R eps) const {
        if (distBoundary(q) <= eps) return 0;
        if (!insideRaw(q, outline)) return -1;
        for (auto& h : holes) if (insideRaw(q, h.pts)) return -1;
        return 1;
    }
    std::vector<std::pair<V, V>> segments() const {
        std::vector<std::pair<V, V>> s;
        for (size_t i = 0; i < outline.size(); ++i) s.push_back({outline[i], outline[(i + 1) % outline.size()]});
        for (auto& h : holes) for (size_t i = 0; i < h.pts.size(); ++i) s.push_back({h.pts[i], h.pts[(i + 1) % h.pts.size()]});
        return s;
    }
    void bbox(V& lo, V& hi) const { lo = hi = outline[0]; for (auto& v : outline) { lo.x = std::min(lo.x, v.x); lo.y = std::min(lo.y, v.y); hi.x = std::max(hi.x, v.x); hi.y = std::max(hi.y, v.y); } }
    bool onBoundaryEdge(V a, V b, R eps) const { // segment a-b lies along the boundary
        V m = (a + b) * 0.5L;
        return distBoundary(a) <= eps && distBoundary(b) <= eps && distBoundary(m) <= eps;
    }
};
inline Point toP(V v) { return Point((double)v.x, (double)v.y); }
inline V toV(const Point& p) { return V(p.getX(), p.getY()); }
inline std::vector<Point> toPts(const Poly& p) { std::vector<Point> r; for (auto& v : p) r.push_back(toP(v)); return r; }
inline Poly toPoly(const std::vector<Point>& p) { Poly r; for (auto& v : p) r.push_back(toV(v)); return r; }
inline V dbl(V v) { return V((double)v.x, (double)v.y); }
inline V quant(V v, int q) { return V(roundl(v.x * q) / q, roundl(v.y * q) / q); }

struct OutlineOpts {
    R minFeature = 0.3L, minAngleDeg = 18; bool transform = true; bool subdivide = true; bool nonconvex = true; bool rotate = true;
    int maxTranslate = 1000;
};
inline Poly circlePts(V c, R r, int grade) { // same definition as the documentation: grade points, from angle 0, counter-clockwise
    Poly p; for (int i = 0; i < grade; ++i) { double a = 360.0 * i / grade * M_PI / 180; p.push_back(V((double)c.x + (double)r * cos(a), (double)c.y + (double)r * sin(a))); } return p;
}
// outline of a connected set of lattice cells without holes or corner contacts, grown cell by cell from one choice
inline Poly polyomino(uint64_t lcg, int cells, int N, R w, R jit) {
    auto rnd = [&](int m) { lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL; return (int)((lcg >> 33) % m); };
    std::vector<std::vector<char>> g(N + 2, std::vector<char>(N + 2, 0)); g[1 + rnd(N)][1 + rnd(N)] = 1;
    static const int dx[8] = {1, 1, 0, -1, -1, -1, 0, 1}, dy[8] = {0, 1, 1, 1, 0, -1, -1, -1};
    int thin = rnd(3);
    for (int have = 1, tries = 0; have < cells && tries < 60 * cells; ++tries) {
        int x = 1 + rnd(N), y = 1 + rnd(N); if (g[x][y]) continue; int runs = 0, four = 0;
        for (int k = 0; k < 8; ++k) { bool a = g[x + dx[k]][y + dy[k]], b = g[x + dx[(k + 1) % 8]][y + dy[(k + 1) % 8]]; if (!a && b) ++runs; if (a && k % 2 == 0) ++four; }
        if (runs != 1 || four == 0 || (thin && four > 1)) continue;
        g[x][y] = 1; ++have; }
    std::map<std::pair<int, int>, std::pair<int, int>> next; // boundary edges, cells on the left
    for (int x = 1; x <= N; ++x) for (int y = 1; y <= N; ++y) if (g[x][y]) { if (!g[x][y - 1]) next[{x, y}] = {x + 1, y}; if (!g[x + 1][y]) next[{x + 1, y}] = {x + 1, y + 1}; if (!g[x][y + 1]) next[{x + 1, y + 1}] = {x, y + 1}; if (!g[x - 1][y]) next[{x, y + 1}] = {x, y}; }
    Poly p; auto st = next.begin()->first, at = st, prev = at; do { auto nx = next[at]; if (at == st || (nx.first - at.first) != (at.first - prev.first) || (nx.second - at.second) != (at.second - prev.second)) { R jx = jit ? jit * (rnd(33) - 16) / 16 : 0, jy = jit ? jit * (rnd(33) - 16) / 16 : 0; p.push_back(quant(V((at.first - 1 + jx) * w, (at.second - 1 + jy) * w), 1024)); } prev = at; at = nx; } while (at != st && p.size() < 4000);
    return p;
}
// a simple polygon through random lattice points: crossings of a random tour are removed by reversing parts of it
inline Poly untangled(uint64_t lcg, int n, int grid) {
    auto rnd = [&](int m) { lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL; return (int)((lcg >> 33) % m); };
    std::set<std::pair<int, int>> seen; Poly p; while ((int)p.size() < n) { int x = rnd(grid), y = rnd(grid); if (seen.insert({x, y}).second) p.push_back(V(x, y)); }
    for (int round = 0; round < 60; ++round) { bool any = false;
        for (int i = 0; i < n; ++i) for (int j = i + 2; j < n; ++j) if (!(i == 0 && j + 1 == n) && crossProper(p[i], p[i + 1], p[j], p[(j + 1) % n])) { std::reverse(p.begin() + i + 1, p.begin() + j + 1); any = true; }
        if (!any) break; }
    return p;
}
// simplest outline = 10x10 square; every generator yields a polygon of extent about 10
inline Poly genShape(Ctx& c, std::string& kind, bool nonconvex, R minFeature, R minAng) {
    Src& s = c.s;
    int k = nonconvex ? s.weighted({3, 2, 2, 3, 4, 3, 2}) : s.weighted({2, 2, 3});
    int q = s.pick({4, 1, 64});
    Poly p;
    int w = s.range(0, 9), h = s.range(0, 9);
    Poly rect = {V(0, 0), V(10 - w, 0), V(10 - w, 10 - h), V(0, 10 - h)};
    switch (k) {
    case 0: p = rect; kind = "rect"; break;
    case 1: { int n = s.chance(8) ? s.range(13, 64) : s.range(3, 12); double rot = s.chance(50) ? s.real(0, 1) : 0; for (int i = 0; i < n; ++i) { double a = 2 * M_PI * (i + rot) / n; p.push_back(V(5 + 5 * cos(a), 5 + 5 * sin(a))); } kind = "regular"; break; }
    case 2: { int n = s.range(3, 9); double ex = s.real(0.4, 1), a = 0; std::vector<double> g; double tot = 0; for (int i = 0; i < n; ++i) { double x = 0.25 + s.real01(); g.push_back(x); tot += x; }
        for (int i = 0; i < n; ++i) { p.push_back(quant(V(5 + 5 * cos(a), 5 + 5 * ex * sin(a)), std::max(q, 4))); a += 2 * M_PI * g[i] / tot; } kind = "convex"; break; }
    case 3: { bool many = s.chance(10); int n = many ? s.range(15, 40) : s.range(4, 14); for (int i = 0; i < n; ++i) { double a = 2 * M_PI * (i + 0.4 * s.real01()) / n, r = 6 * (1 - (many ? 0.08 : 0.75) * s.real01()); p.push_back(quant(V(5 + r * cos(a), 5 + r * sin(a)), std::max(q, 4))); } kind = "star"; break; }
    case 4: {
        int t = s.range(0, 7); R a = s.dyadic(1, 4, q), b = s.dyadic(1, 4, q), e = s.dyadic(1, 3, q);
        if (t == 0) p = {V(0, 0), V(10, 0), V(10, a), V(b, a), V(b, 10), V(0, 10)};                                                     // L
        else if (t == 1) p = {V(0, 0), V(10, 0), V(10, 9), V(10 - a, 9), V(10 - a, e), V(b, e), V(b, 7), V(0, 7)};                       // U
        else if (t == 2) p = {V(0, 6), V(4, 6), V(4, 0), V(4 + e, 0), V(4 + e, 6), V(10, 6), V(10, 6 + a), V(0, 6 + a)};                 // T
        else if (t == 3) p = {V(4, 0), V(4 + e, 0), V(4 + e, 4), V(10, 4), V(10, 4 + a), V(4 + e, 4 + a), V(4 + e, 10), V(4, 10), V(4, 4 + a), V(0, 4 + a), V(0, 4), V(4, 4)}; // plus
        else if (t == 4) p = {V(0, 0), V(10, 0), V(10, a), V(7, a), V(7, a + b), V(3, a + b), V(3, 10), V(0, 10)};                        // stairs
        else if (t == 5) { int teeth = s.range(2, 4); p = {V(0, 0)}; R x = 0; Poly top; for (int i = 0; i < teeth; ++i) { R hgt = 3 + s.dyadic(0, 6, q); top.push_back(V(x, hgt)); top.push_back(V(x + e, hgt)); if (i + 1 < teeth) { top.push_back(V(x + e, 1)); top.push_back(V(x + e + 1, 1)); } x += e + 1; } x -= 1; p.push_back(V(x, 0)); std::reverse(top.begin(), top.end()); p.insert(p.end(), top.begin(), top.end()); } // comb
        else if (t == 6) p = {V(0, 0), V(6, 0), V(6, 5), V(10, 5), V(10, 5 + a), V(6 - e, 5 + a), V(6 - e, b), V(0, b)};                  // Z
        else p = {V(0, 0), V(10, 0), V(10, 10), V(0, 10), V(0, 3), V(7, 3), V(7, 7), V(3, 7), V(3, 5), V(5, 5), V(5, 4), V(1, 4), V(1, 9), V(9, 9), V(9, 1), V(0, 1)}; // spiral
        kind = "rectilinear"; break; }
    case 6: { uint64_t seed = s.raw(); p = polyomino(seed, s.range(3, 30), 7, 1.5L, s.chance(50) ? 0.12L : 0); kind = "polyomino"; break; }
    default: { int n = s.range(1, 5); Poly up; p.push_back(V(0, 4)); R x = 0; int m = s.range(1, 5);
        for (int i = 1; i <= n; ++i) p.push_back(quant(V(10.0L * i / (n + 1), 4 * s.real01()), q));
        p.push_back(V(10, 4)); (void)x;
        for (int i = m; i >= 1; --i) p.push_back(quant(V(10.0L * i / (m + 1), 10 - 4 * s.real01()), q));
        kind = "monotone"; break; }
    }
    bool ok = p.size() >= 3;
    if (ok) { R f = featureSize(p); ok = f >= minFeature && minAngle(p) >= minAng; if (k == 4 && !ok) { ok = false; } }
    if (!ok) { p = rect; kind = "rect(fallback)"; }
    for (auto& v : p) v = dbl(v);
    return p;
}
struct Xform { R k = 1; int quarter = 0; bool mirror = false; V t;
    V operator()(V v) const { if (mirror) v = V(-v.x, v.y); for (int i = 0; i < quarter; ++i) v = V(-v.y, v.x); return dbl(V((double)((double)v.x * (double)k), (double)((double)v.y * (double)k)) + t); } };
inline Poly xapply(const Xform& x, const Poly& p) { Poly r; for (auto& v : p) r.push_back(x(v)); return r; }
inline Xform genXform(Ctx& c, int maxTranslate) {
    Src& s = c.s; Xform x;
    x.k = s.pick({1.0, 1.0, 1.0, 0.5, 2.0, 0.7, 3.3, 10.0, 100.0, 0.25, 1.0, 1.0, 0.5, 2.0, 0.7, 3.3, 10.0, 1000.0, 0.25, 10000.0}); if (x.k >= 1000) c.label("thousands of units wide");
    x.quarter = s.range(0, 3); x.mirror = s.chance(30);
    int t = s.range(0, 3);
    if (t == 1) x.t = V(-5 * x.k, -5 * x.k);
    else if (t == 2) x.t = V(s.range(0, 20) - 10, s.range(0, 20) - 10);
    else if (t == 3 && maxTranslate && x.k <= 10 && s.chance(25)) { // as far away as projected geographic coordinates
        auto f = [&]() { return s.pick({0.0, 1.0, -1.0}) * s.pick({1e4, 1e5, 4.5e5, 1e6, 4.6e6}) + s.real01(); }; double a = f(), b = f(); x.t = V(a, b);
        if (fabs(a) > 5000 || fabs(b) > 5000) c.label("far from the origin");
    }
    else if (t == 3 && maxTranslate) x.t = V(s.dyadic(-maxTranslate, maxTranslate, 8), s.dyadic(-maxTranslate, maxTranslate, 8));
    return x;
}
inline Poly subdivided(const Poly& p, const std::vector<int>& k) { Poly r; size_t n = p.size(); for (size_t i = 0; i < n; ++i) { r.push_back(p[i]); for (int j = 1; j <= k[i]; ++j) r.push_back(dbl(p[i] + (p[(i + 1) % n] - p[i]) * ((R)j / (k[i] + 1)))); } return r; }
inline Poly rotated(Poly p, int k) { if (p.size()) std::rotate(p.begin(), p.begin() + k % p.size(), p.end()); return p; }

struct DomainOpts { int maxHoles = 3; bool nonconvex = true; int maxTranslate = 1000; bool denseBoundary = false; bool subdivide = true; bool xform = true; bool circles = true; int holeChance = 50; R clearance = 0.35L; };
inline Poly genHolePoly(Ctx& c, V ctr, R r, bool& star) {
    Src& s = c.s; Poly h; int t = s.range(0, 3); star = false;
    if (t == 0) { R a = r * (0.5L + 0.5L * s.real01()), b = r * (0.5L + 0.5L * s.real01()); a = roundl(a * 16) / 16; b = roundl(b * 16) / 16; h = {V(ctr.x - a, ctr.y - b), V(ctr.x + a, ctr.y - b), V(ctr.x + a, ctr.y + b), V(ctr.x - a, ctr.y + b)}; }
    else if (t == 1) { int n = s.range(3, 8); double rot = s.real01(); for (int i = 0; i < n; ++i) { double a = 2 * M_PI * (i + rot) / n; h.push_back(quant(V(ctr.x + r * cos(a), ctr.y + r * sin(a)), 64)); } }
    else if (t == 2) { int n = s.range(2, 5) * 2; for (int i = 0; i < n; ++i) { double a = 2 * M_PI * i / n, rr = (double)r * (i % 2 ? 0.45 + 0.3 * s.real01() : 1); h.push_back(quant(V(ctr.x + rr * cos(a), ctr.y + rr * sin(a)), 64)); } star = true; }
    else { // L or U shaped hole: its centroid can lie outside of it
        R g = roundl(r * 16) / 16, w = roundl(g * 0.3L * 64) / 64;
        if (s.chance(50)) h = {V(-g, -g), V(g, -g), V(g, -g + w), V(-g + w, -g + w), V(-g + w, g), V(-g, g)};
        else h = {V(-g, -g), V(g, -g), V(g, g), V(g - w, g), V(g - w, -g + w), V(-g + w, -g + w), V(-g + w, g), V(-g, g)};
        for (auto& v : h) v = v + ctr; star = true; }
    return h;
}
inline Domain genDomain(Ctx& c, const DomainOpts& o = DomainOpts()) {
    Src& s = c.s; Domain d;
    d.outline = genShape(c, d.kind, o.nonconvex, 0.45L, 18);
    if (sarea(d.outline) < 0) std::reverse(d.outline.begin(), d.outline.end());
    int nh = (o.maxHoles > 0 && s.chance(o.holeChance)) ? s.chance(8) ? s.range(o.maxHoles, 9) : s.range(1, o.maxHoles) : 0;
    V lo, hi; d.bbox(lo, hi);
    for (int i = 0; i < nh; ++i) {
        for (int tries = 0; tries < 3; ++tries) { // bounded; a hole that does not fit is left out
            HoleSpec h; h.circle = o.circles && s.chance(30);
            V ctr = quant(V(s.real((double)lo.x, (double)hi.x), s.real((double)lo.y, (double)hi.y)), 32);
            R room = distToBoundary(ctr, d.outline) - o.clearance;
            if (!insideRaw(ctr, d.outline)) continue;
            for (auto& g : d.holes) { room = std::min(room, distToBoundary(ctr, g.pts) - o.clearance); if (insideRaw(ctr, g.pts)) room = 0; }
            R want = 0.6L + 2 * s.real01(); bool star;
            if (h.circle) { h.c = ctr; h.r = (R)(double)(roundl(std::min(want, room) * 64) / 64); if (h.r < 0.55L) continue; h.pts = circlePts(h.c, h.r, 12); }
            else { h.pts = genHolePoly(c, ctr, std::min(want, room * 0.7L), star); if (std::min(want, room * 0.7L) < 0.5L) continue; if (featureSize(h.pts) < 0.15L || minAngle(h.pts) < 15) continue; if (s.chance(40)) std::reverse(h.pts.begin(), h.pts.end()); h.pts = rotated(h.pts, s.range(0, (int)h.pts.size() - 1)); }
            bool ok = polyDist(h.pts, d.outline) >= o.clearance * 0.7L && insideRaw(h.pts[0], d.outline);
            for (auto& g : d.holes) ok = ok && polyDist(h.pts, g.pts) >= o.clearance * 0.7L && !insideRaw(h.pts[0], g.pts) && !insideRaw(g.pts[0], h.pts);
            if (ok) { d.holes.push_back(h); break; }
        }
    }
    if (o.denseBoundary || (o.subdivide && s.chance(25))) {
        std::vector<int> k; for (size_t i = 0; i < d.outline.size(); ++i) {
            R L = dist(d.outline[i], d.outline[(i + 1) % d.outline.size()]);
            if (o.denseBoundary) k.push_back(L > 4 ? 7 : L > 2 ? 3 : L > 0.9 ? 1 : 0); else k.push_back(L > 1.3 ? s.pick({0, 1, 3}) : L > 0.7 ? s.pick({0, 1}) : 0); }
        d.outline = subdivided(d.outline, k); d.kind += "+sub";
    }
    if (s.chance(30)) { std::reverse(d.outline.begin(), d.outline.end()); d.kind += "+cw"; }
    d.outline = rotated(d.outline, s.range(0, (int)d.outline.size() - 1));
    if (o.xform) {
        Xform x = genXform(c, o.maxTranslate); d.scale = x.k;
        d.outline = xapply(x, d.outline);
        for (auto& h : d.holes) { if (h.circle) { h.c = x(h.c); h.r = (double)(h.r * x.k); h.pts = circlePts(h.c, h.r, 12); } else h.pts = xapply(x, h.pts); }
    }
    return d;
}
// outlines listed closed (first vertex again at the end), or with a vertex listed twice
inline std::vector<Point> repeated(std::vector<Point> p, int how) { if (how & 1) p.push_back(p[0]); if (how & 2) { Point v = p[p.size() / 2]; p.insert(p.begin() + p.size() / 2, v); } return p; }
inline Region makeRegion(const Domain& d) {
    std::vector<Point> p = repeated(toPts(d.outline), d.repeats);
    Region r(p);
    for (auto& h : d.holes) {
        if (h.circle) { CircularHole ch(toP(h.c), (double)h.r); r.addHole(ch); }
        else { std::vector<Point> hp = repeated(toPts(h.pts), d.repeats >> 2); PolygonalHole ph(hp); r.addHole(ph); }
    }
    return r;
}
inline Domain genMeshDomain(Ctx& c, const DomainOpts& o = DomainOpts()) { Domain d = genDomain(c, o); if (c.s.chance(6)) { d.repeats = c.s.pick({1, 2, 3, 4, 5, 15}); c.label("repeated outline vertices"); } return d; }
inline void describe(Ctx& c, const Domain& d) {
    if (d.repeats) c.desc << "(vertices repeated: " << d.repeats << ") ";
    c.desc << "domain " << d.kind << " " << show(d.outline);
    for (auto& h : d.holes) { if (h.circle) c.desc << " circle" << show(h.c) << "r=" << h.r; else c.desc << " hole" << show(h.pts); }
}

struct SeedOpts { int max = 40; bool outside = false; bool dup = true; bool boundary = true; bool grid = true; R margin = 0.06L; R sep = 0.06L; int bigChance = 3; int bigMax = 300; };
// strictly inside the segment, decided without rounding (coordinates are multiples of 1/4096 below 8192)
inline bool exactlyOn(V v, V a, V b) { for (V p : {v, a, b}) for (R x : {p.x, p.y}) if (fabsl(x) > 8192 || x * 4096 != roundl(x * 4096)) return false; return cross(b - a, v - a) == 0 && dot(v - a, b - a) > 0 && dot(v - b, a - b) > 0; }
// distinct seeds in the closed domain (all either clear of the boundary or exactly on an axis-aligned edge); `all` = what is passed
struct Seeds { std::vector<V> distinct; std::vector<V> all; int onBoundary = 0, outside = 0, dups = 0; std::string kind; };
inline Seeds genSeeds(Ctx& c, const Domain& d, const SeedOpts& o = SeedOpts()) {
    Src& s = c.s; Seeds r; V lo, hi; d.bbox(lo, hi); R k = d.scale; R W = hi.x - lo.x, Hh = hi.y - lo.y;
    int n = s.chance(o.bigChance) ? s.range(o.max, o.bigMax) : s.range(0, o.max);
    int mode = s.weighted({5, o.grid ? 3 : 0, o.grid ? 2 : 0, o.grid ? 2 : 0, 2, 1});
    std::vector<V> cand;
    auto uni = [&]() { return V(s.real((double)lo.x, (double)hi.x), s.real((double)lo.y, (double)hi.y)); };
    if (mode == 0 && s.chance(1) && o.bigMax >= 300) n = s.range(300, 2400); uint64_t lcg = n > o.max ? s.raw() : 0; // many seeds come from one choice
    auto many = [&]() { R t[2]; for (R& x : t) { lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL; x = (lcg >> 33) / 2147483648.0L; } return V((double)(lo.x + W * t[0]), (double)(lo.y + Hh * t[1])); };
    if (mode == 0) { int q = s.pick({0, 1, 8}); for (int i = 0; i < n; ++i) { V v = n > o.max ? many() : uni(); if (q) v = quant(v * (1 / k), q) * k; cand.push_back(dbl(v)); } r.kind = "random"; }
    else if (mode == 1) { int nx = s.range(1, 8), ny = s.range(1, 8); for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) cand.push_back(dbl(V(lo.x + W * (i + 1) / (nx + 1), lo.y + Hh * (j + 1) / (ny + 1)))); r.kind = "grid"; }
    else if (mode == 2) { int nx = s.range(1, 8), ny = s.range(1, 8); for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) cand.push_back(dbl(V(lo.x + W * (i + 1 - (j % 2) * 0.5L) / (nx + 1), lo.y + Hh * (j + 1) / (ny + 1)))); r.kind = "hex"; }
    else if (mode == 3) { int rings = s.range(1, 3), m = s.chance(20) ? s.range(11, 60) : s.range(3, 10); V ctr = quant(uni(), 4); if (s.chance(40)) cand.push_back(dbl(ctr)); for (int a = 0; a < rings; ++a) { R rr = k * (0.5L + 2 * s.real01()); for (int i = 0; i < m; ++i) cand.push_back(dbl(V(ctr.x + rr * cosl(2 * M_PIl * i / m), ctr.y + rr * sinl(2 * M_PIl * i / m)))); } r.kind = "cocircular"; }
    else if (mode == 4) { int cl = s.range(1, 3); for (int a = 0; a < cl; ++a) { V ctr = uni(); int m = std::max(1, n / cl); for (int i = 0; i < m; ++i) cand.push_back(dbl(ctr + V(k * s.real(-0.8, 0.8), k * s.real(-0.8, 0.8)))); } r.kind = "clusters"; }
    else { V a = uni(), b = uni(); for (int i = 0; i < n; ++i) cand.push_back(dbl(a + (b - a) * ((i + 0.5L) / n))); r.kind = "line"; }
    if (o.boundary && s.chance(35)) { // exactly on axis-aligned edges
        auto segs = d.segments(); int m = s.range(1, 5);
        for (int i = 0; i < m; ++i) { auto& e = segs[s.range(0, (int)segs.size() - 1)]; R t = s.range(1, 15) / 16.0L; V v;
            if (e.first.x == e.second.x) v = V(e.first.x, (double)(e.first.y + t * (e.second.y - e.first.y)));
            else if (e.first.y == e.second.y) v = V((double)(e.first.x + t * (e.second.x - e.first.x)), e.first.y);
            else { t = s.pick({0.5L, 0.25L, 0.75L}); v = dbl(e.first + (e.second - e.first) * t); if (!exactlyOn(v, e.first, e.second)) continue; c.label("seeds-on-slanted-edges"); }
            cand.push_back(v); } }
    if (o.boundary && s.chance(8)) cand.push_back(d.outline[s.range(0, (int)d.outline.size() - 1)]);
    std::vector<V> verts = d.outline; for (auto& h : d.holes) verts.insert(verts.end(), h.pts.begin(), h.pts.end());
    auto segs = d.segments();
    for (auto& v : cand) {
        bool exactOn = false, vertex = false; R db = d.distBoundary(v);
        for (auto& w : verts) if (w.x == v.x && w.y == v.y) vertex = true;
        for (auto& e : segs) {
            if (e.first.x == e.second.x && v.x == e.first.x && v.y > std::min(e.first.y, e.second.y) && v.y < std::max(e.first.y, e.second.y)) exactOn = true;
            if (e.first.y == e.second.y && v.y == e.first.y && v.x > std::min(e.first.x, e.second.x) && v.x < std::max(e.first.x, e.second.x)) exactOn = true;
            if (exactlyOn(v, e.first, e.second)) exactOn = true;
        }
        bool in = d.locate(v, 0) > 0;
        if (vertex) { r.all.push_back(v); ++r.dups; continue; }
        if (exactOn) { if (!o.boundary) continue; bool ok = true; for (auto& w : verts) if (dist(w, v) < o.sep * k) ok = false; for (auto& w : r.distinct) if (dist(w, v) < o.sep * k) ok = false; if (!ok) continue; r.distinct.push_back(v); r.all.push_back(v); ++r.onBoundary; continue; }
        if (db < o.margin * k) continue;
        if (!in) { if (o.outside) { r.all.push_back(v); ++r.outside; } continue; }
        bool ok = true; for (auto& w : r.distinct) if (dist(w, v) < o.sep * k) { ok = false; break; }
        if (!ok) continue;
        r.distinct.push_back(v); r.all.push_back(v);
    }
    if (o.dup && !r.distinct.empty() && s.chance(25)) { int m = s.range(1, 4); for (int i = 0; i < m; ++i) { V v = r.distinct[s.range(0, (int)r.distinct.size() - 1)]; if (s.chance(30)) v = dbl(v + V(1e-7L, -1e-7L)); r.all.insert(s.chance(50) ? r.all.end() : r.all.end(), v); ++r.dups; } }
    if (r.outside) c.label("seeds-outside"); if (r.onBoundary) c.label("seeds-on-boundary"); if (r.dups) c.label("seeds-duplicate");
    if (r.distinct.size() > 60) c.label("seeds>60"); if (r.distinct.size() > 300) c.label("seeds>300"); if (r.distinct.size() > 700) c.label("seeds>700");
    c.label("seeds-" + r.kind);
    return r;
}
inline void describe(Ctx& c, const Seeds& r) { c.desc << " seeds " << r.kind << "[" << r.all.size() << "]"; size_t m = std::min<size_t>(r.all.size(), 40); for (size_t i = 0; i < m; ++i) c.desc << show(r.all[i]); if (m < r.all.size()) c.desc << "..."; }
inline void labelDomain(Ctx& c, const Domain& d) {
    c.label("outline-" + d.kind.substr(0, d.kind.find('+'))); if (d.kind.find("+sub") != std::string::npos) c.label("outline-collinear-vertices"); if (d.kind.find("+cw") != std::string::npos) c.label("outline-clockwise");
    c.label("holes-" + std::to_string(d.holes.size())); for (auto& h : d.holes) c.label(h.circle ? "hole-circle" : "hole-polygon");
    if (d.scale != 1) c.label("scaled");
}
inline Poly genSimple(Ctx& c, std::string& kind, R& k) {
    if (c.s.chance(4)) { // many-sided convex outline
        Poly p; int n = c.s.range(20, 130); double ex = c.s.real(0.3, 1), tl = c.s.real(0, 3), ph = c.s.real01(); for (int i = 0; i < n; ++i) { double a = 2 * M_PI * (i + ph) / n, x = 30 * cos(a), y = 30 * ex * sin(a); p.push_back(dbl(V(x * cos(tl) - y * sin(tl), x * sin(tl) + y * cos(tl)))); }
        k = 3; kind = "oval"; if (c.s.chance(50)) std::reverse(p.begin(), p.end()); return p; }
    if (c.s.chance(12)) { // many corners: a winding outline through random points, or around a large set of cells
        Poly p; bool cells = c.s.chance(40); uint64_t seed = c.s.raw(); if (cells) p = polyomino(seed, c.s.range(10, 120), 16, 1, c.s.chance(50) ? 0.2L : 0); else { int n = c.s.range(5, 60); p = untangled(seed, n, n * 2); }
        if (p.size() >= 3 && featureSize(p) >= 0.05L && minAngle(p) >= 1 && fabsl(sarea(p)) > 0.5L) { k = 1; kind = cells ? "cells" : "winding"; if (c.s.chance(50)) std::reverse(p.begin(), p.end()); return rotated(p, c.s.range(0, (int)p.size() - 1)); } }
    DomainOpts o; o.maxHoles = 0; o.maxTranslate = 300; Domain d = genDomain(c, o); kind = d.kind; k = d.scale; return d.outline;
}
// a shape with a certain crossing: two edges crossing by more than eps
inline bool genCrossed(Ctx& c, Poly& p) {
    std::string kd; R k; p = genSimple(c, kd, k); size_t n = p.size(); if (n < 4) { p = {V(0, 0), V(10, 10), V(10, 0), V(0, 10)}; n = 4; k = 1; }
    int t = c.s.range(0, 2); size_t i = c.s.range(0, (int)n - 1), j = c.s.range(0, (int)n - 1);
    if (t == 0) std::swap(p[i], p[j]); else if (t == 1) p[i] = dbl(p[i] + (p[j] - p[i]) * 1.3L + V(0.1L * k, 0.07L * k)); else for (int q = 0; q < 3; ++q) std::swap(p[c.s.range(0, (int)n - 1)], p[c.s.range(0, (int)n - 1)]);
    for (size_t a = 0; a < n; ++a) for (size_t b = a + 2; b < n; ++b) { if (a == 0 && b + 1 == n) continue; V A = p[a], B = p[(a + 1) % n], C = p[b], D = p[(b + 1) % n]; if (crossDeep(A, B, C, D, 0.01L * k) && fabsl(cross(B - A, D - C)) > 0.05L * dist(A, B) * dist(C, D)) return true; }
    return false;
}
