// P14 files written, P15 meshes read from files, P21 invalid input
#include "meshcheck.h"
#include <sys/stat.h>
#include <unistd.h>
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/triangulation/EarTriangulationGenerator.h>
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/utilities/delynoi_utilities.h>

typedef std::vector<std::vector<std::string>> Lines;
static Lines tokens(const std::string& text) { // one entry per line
    Lines r; std::istringstream f(text); std::string l;
    while (std::getline(f, l)) { std::vector<std::string> t; std::istringstream is(l); std::string w; while (is >> w) t.push_back(w); r.push_back(t); }
    return r;
}
static bool plainInt(const std::string& s) { size_t i = (s[0] == '-'); if (i >= s.size()) return false; for (; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false; return true; }
static long long intTok(const std::string& s, const char* what) { CHECK(plainInt(s), what << ": \"" << s << "\" is not an integer written in full"); return atoll(s.c_str()); }
static void checkCoord(const std::string& t, double v, int prec, const char* what) {
    char* e; R g = strtold(t.c_str(), &e); CHECK(e != t.c_str() && !*e, what << ": \"" << t << "\" is not a number");
    CHECK(fabsl(g - (R)v) <= 0.5000001L * powl(10, -prec) + 4e-16L * fabs(v), what << ": coordinate " << v << " is written as " << t << " with precision " << prec);
}
static int setRandomPrecision(Ctx& c) {
    DelynoiConfig* d = DelynoiConfig::instance(); int p = 6;
    switch (c.s.range(0, 4)) { case 0: break; case 1: d->setPrecision(Precision::mid); p = 10; break; case 2: d->setPrecision(Precision::large); p = 16; break; case 3: d->setPrecision(Precision::small); p = 6; break; default: p = c.s.range(0, 14); d->setPrecision(p); }
    c.desc << " precision " << p; return p;
}
// A file name in HOME, sometimes with longer earlier contents; "other" must stay as it is
static std::string target(Ctx& c, std::string& path) {
    std::string n = c.s.pick(std::vector<std::string>{"out.txt", "mesh", "a b.dat", "sub/out.txt"}); mkdir((homeDir() + "sub").c_str(), 0700);
    path = homeDir() + n; unlink(path.c_str()); if (c.s.chance(50)) { std::string junk; for (int i = 0; i < 3000; ++i) junk += "7 7 7\n"; spit(path, junk); c.label("file existed"); }
    spit(homeDir() + "other.txt", "keep\n"); return n;
}
static void checkOther() { CHECK(slurp(homeDir() + "other.txt") == "keep\n", "another file in the home directory was changed"); }
template <class T> void checkMeshFile(Mesh<T>& m, const std::string& text, int prec) {
    Lines L = tokens(text); size_t at = 0; auto line = [&](size_t n, const char* what) -> std::vector<std::string>& { CHECK(at < L.size(), "mesh file ends before its " << what); CHECK(n == 0 || L[at].size() == n, "mesh file: " << what << " line " << at << " has " << L[at].size() << " fields"); return L[at++]; };
    std::vector<Point> pts = m.getPoints().getList(); long long n = intTok(line(1, "point count")[0], "point count"); CHECK(n == (long long)pts.size(), "mesh file lists " << n << " points, the mesh has " << pts.size());
    for (auto& p : pts) { auto& l = line(2, "point"); checkCoord(l[0], p.getX(), prec, "mesh file"); checkCoord(l[1], p.getY(), prec, "mesh file"); }
    n = intTok(line(1, "edge count")[0], "edge count"); CHECK(n == m.getSegments()->size(), "mesh file lists " << n << " edges, the mesh has " << m.getSegments()->size());
    std::set<E> want, got; for (auto& kv : m.getSegments()->getMap()) want.insert(ekey(kv.first.getFirst(), kv.first.getSecond()));
    for (long long i = 0; i < n; ++i) { auto& l = line(2, "edge"); E k = ekey((int)intTok(l[0], "edge"), (int)intTok(l[1], "edge")); CHECK(want.count(k), "mesh file lists edge " << k.first << "-" << k.second << " which the mesh does not have"); CHECK(got.insert(k).second, "mesh file lists edge " << k.first << "-" << k.second << " twice"); }
    std::vector<T> els = m.getPolygons(); n = intTok(line(1, "element count")[0], "element count"); CHECK(n == (long long)els.size(), "mesh file lists " << n << " elements, the mesh has " << els.size());
    for (auto& e : els) { auto& l = line(0, "element"); std::vector<int> p = e.getPoints(); CHECK(l.size() == p.size() + 1 && intTok(l[0], "element") == (long long)p.size(), "an element of " << p.size() << " sides is written with " << l.size() << " fields"); for (size_t k = 0; k < p.size(); ++k) CHECK(intTok(l[k + 1], "element") == p[k], "element index " << p[k] << " is written as " << l[k + 1]); }
    CHECK(at == L.size(), "mesh file goes on after its elements");
}
PROPERTY(P14, 700) {
    Src& s = c.s; int kind = s.weighted({3, 2, 3, 2, 2, 2}); int prec = setRandomPrecision(c); std::string path, name = target(c, path);
    if (kind <= 1) {
        DomainOpts o; Domain d = genMeshDomain(c, o); SeedOpts so; so.max = 25; so.bigChance = 1; Seeds sd = genSeeds(c, d, so); labelDomain(c, d); describe(c, d); describe(c, sd); Region r = makeRegion(d); std::vector<Point> sp = seedPts(sd);
        if (kind == 0) { TriangleVoronoiGenerator g(sp, r); Mesh<Polygon> m = g.getMesh(); m.printInFile(name); checkMeshFile(m, slurp(path), prec); if (m.getPolygons().size() > 4) c.nontrivial = true; c.label("Voronoi mesh");
            m.getSegments()->printInFile("s.txt"); Lines L = tokens(slurp(homeDir() + "s.txt")); CHECK((int)L.size() == m.getSegments()->size(), "segment map file has " << L.size() << " lines for " << m.getSegments()->size() << " entries");
            for (auto& l : L) { CHECK(l.size() == 4, "segment map line has " << l.size() << " fields"); NeighboursBySegment nb = m.getNeighbours(IndexSegment((int)intTok(l[0], "segment map"), (int)intTok(l[1], "segment map"))); CHECK(intTok(l[2], "segment map") == nb.getFirst() && intTok(l[3], "segment map") == nb.getSecond() && nb.getFirst() >= 0, "edge " << l[0] << "-" << l[1] << " of the mesh is written with neighbours " << l[2] << " " << l[3]); }
            m.getPointMap()->printInFile("p.txt"); L = tokens(slurp(homeDir() + "p.txt")); CHECK((int)L.size() == m.getPointMap()->size(), "point map file has " << L.size() << " lines for " << m.getPointMap()->size() << " entries"); std::multiset<std::vector<std::string>> pl, pw; for (auto& l : L) { CHECK(l.size() >= 3, "point map line has " << l.size() << " fields"); pl.insert(std::vector<std::string>(l.begin() + 2, l.end())); } for (auto& e : m.getPointMap()->getMap()) { std::vector<std::string> t; for (int x : e.second.getNeighbours()) t.push_back(std::to_string(x)); pw.insert(t); } CHECK(pl == pw, "the point map of the mesh is written with other elements"); }
        else { TriangleDelaunayGenerator g(sp, r); Mesh<Triangle> m = g.getConstrainedDelaunayTriangulation(); m.printInFile(name); checkMeshFile(m, slurp(path), prec); if (m.getPolygons().size() > 4) c.nontrivial = true; c.label("Delaunay mesh");
            if (s.chance(30)) { // a second mesh replaces the first one's contents
                std::vector<Point> none; TriangleDelaunayGenerator g2(none, r); Mesh<Triangle> m2 = g2.getConstrainedDelaunayTriangulation(); m2.printInFile(name); checkMeshFile(m2, slurp(path), prec); c.label("rewritten"); } }
    } else if (kind == 2) {
        Domain d = genDomain(c); Seeds sd = genSeeds(c, d); labelDomain(c, d); describe(c, d); describe(c, sd); Region r = makeRegion(d); std::vector<Point> sp = seedPts(sd); r.addSeedPoints(sp); std::vector<Point> seeds = r.getSeedPoints();
        r.printInFile(name); Lines L = tokens(slurp(path)); std::vector<V> rp = d.outline; for (auto& h : d.holes) rp.insert(rp.end(), h.pts.begin(), h.pts.end()); size_t nr = rp.size();
        CHECK(L.size() >= 1 && L[0].size() == 1 && intTok(L[0][0], "point count") == (long long)(nr + seeds.size()), "region file lists " << (L.empty() || L[0].empty() ? "" : L[0][0]) << " points; the region has " << nr << " outline and hole points and " << seeds.size() << " seeds");
        CHECK(L.size() >= 2 + nr + seeds.size(), "region file ends early"); R unit = 0.5000001L * powl(10, -prec);
        for (size_t i = 1; i <= nr + seeds.size(); ++i) CHECK(L[i].size() == 2, "point line " << i << " of the region file has " << L[i].size() << " fields");
        std::vector<Point> got = r.getRegionPoints(); CHECK(got.size() == nr, "region has " << got.size() << " points"); for (size_t i = 0; i < nr; ++i) { checkCoord(L[i + 1][0], got[i].getX(), prec, "region file"); checkCoord(L[i + 1][1], got[i].getY(), prec, "region file"); }
        for (size_t i = 0; i < seeds.size(); ++i) { checkCoord(L[nr + i + 1][0], seeds[i].getX(), prec, "region file (seed)"); checkCoord(L[nr + i + 1][1], seeds[i].getY(), prec, "region file (seed)"); }
        size_t at = nr + seeds.size() + 1; CHECK(L[at].size() == 1, "segment count line of the region file has " << L[at].size() << " fields"); long long ns = intTok(L[at][0], "segment count"); CHECK(ns == (long long)nr, "region file lists " << ns << " segments for " << nr << " outline and hole points"); CHECK(L.size() == at + ns + 2, "region file has " << L.size() << " lines");
        // as drawn: segment end points by index into the listed points
        auto want = d.segments(); std::vector<bool> used(want.size(), false); std::vector<V> file; for (size_t i = 0; i < nr; ++i) file.push_back(V(got[i].getX(), got[i].getY())); (void)unit;
        for (long long i = 0; i < ns; ++i) { auto& l = L[at + 1 + i]; CHECK(l.size() == 2, "segment line of the region file has " << l.size() << " fields"); long long a = intTok(l[0], "segment"), b = intTok(l[1], "segment"); CHECK(a >= 0 && b >= 0 && a < (long long)nr && b < (long long)nr, "segment " << a << "-" << b << " of the region file is not between outline or hole points"); bool ok = false; R tl = 1e-9L * (1 + d.scale) + 1e-12L * (fabsl(file[a].x) + fabsl(file[a].y));
            for (size_t k = 0; k < want.size() && !ok; ++k) if (!used[k] && ((dist(want[k].first, file[a]) <= tl && dist(want[k].second, file[b]) <= tl) || (dist(want[k].first, file[b]) <= tl && dist(want[k].second, file[a]) <= tl))) { used[k] = true; ok = true; }
            CHECK(ok, "segment " << show(file[a]) << "-" << show(file[b]) << " of the region file is not a side of the outline or of a hole"); }
        CHECK(L.back().size() == 1 && L.back()[0] == "0", "the region file does not end with its hole count of 0"); if (!seeds.empty()) c.nontrivial = true; c.label("region");
    } else if (kind == 5) { // input for the stand-alone Triangle program
        Domain d = genDomain(c); Seeds sd = genSeeds(c, d); labelDomain(c, d); describe(c, d); describe(c, sd); Region r = makeRegion(d); std::vector<Point> sp = seedPts(sd), rp = r.getRegionPoints(); UniqueList<Point> list; bool seedsFirst = s.chance(70);
        std::vector<int> index; if (seedsFirst) { list.push_list(sp); index = list.push_list(rp); } else { index = list.push_list(rp); list.push_list(sp); }
        path = homeDir() + "toTriangle.poly"; unlink(path.c_str()); if (s.chance(30)) spit(path, std::string(100000, '9')); TriangleDelaunayGenerator g(sp, r); g.writeTriangleInputFile(list, r, index); Lines L = tokens(slurp(path)); size_t n = list.size(), ns = rp.size(), nh = d.holes.size();
        auto ints = [&](size_t at, std::vector<long long> want, const char* what) { CHECK(at < L.size() && L[at].size() == want.size(), "Triangle input: " << what << " line " << at << " is missing or has a wrong number of fields"); for (size_t k = 0; k < want.size(); ++k) CHECK(intTok(L[at][k], what) == want[k], "Triangle input: " << what << " line " << at << " has " << L[at][k] << " instead of " << want[k]); };
        CHECK(L.size() == 3 + n + ns + nh, "Triangle input has " << L.size() << " lines for " << n << " points, " << ns << " segments and " << nh << " holes"); ints(0, {(long long)n, 2, 0, 0}, "point count"); ints(1 + n, {(long long)ns, 0}, "segment count"); ints(2 + n + ns, {(long long)nh}, "hole count");
        for (size_t i = 0; i < n; ++i) { auto& l = L[1 + i]; CHECK(l.size() == 3 && intTok(l[0], "point") == (long long)i, "Triangle input: point " << i << " is not line " << 1 + i); checkCoord(l[1], list[(int)i].getX(), prec, "Triangle input"); checkCoord(l[2], list[(int)i].getY(), prec, "Triangle input"); }
        auto want = d.segments(); std::vector<bool> used(want.size(), false);
        for (size_t i = 0; i < ns; ++i) { auto& l = L[2 + n + i]; CHECK(l.size() == 3 && intTok(l[0], "segment") == (long long)i, "Triangle input: segment " << i << " is not line " << 2 + n + i); long long a = intTok(l[1], "segment"), b = intTok(l[2], "segment"); CHECK(a >= 0 && b >= 0 && a < (long long)n && b < (long long)n, "Triangle input: segment " << a << "-" << b << " names no point"); V A = toV(list[(int)a]), B = toV(list[(int)b]); bool ok = false; R tl = 2e-5L * (1 + d.scale) + 1e-12L * (fabsl(A.x) + fabsl(A.y));
            for (size_t k = 0; k < want.size() && !ok; ++k) if (!used[k] && ((dist(want[k].first, A) <= tl && dist(want[k].second, B) <= tl) || (dist(want[k].first, B) <= tl && dist(want[k].second, A) <= tl))) { used[k] = true; ok = true; }
            CHECK(ok, "Triangle input: segment " << show(A) << "-" << show(B) << " is not a side of the outline or of a hole"); }
        std::vector<bool> marked(nh, false); for (size_t j = 0; j < nh; ++j) { auto& l = L[3 + n + ns + j]; CHECK(l.size() == 3 && intTok(l[0], "hole") == (long long)j, "Triangle input: hole " << j << " is not line " << 3 + n + ns + j); V q(strtold(l[1].c_str(), 0), strtold(l[2].c_str(), 0)); bool in = false; R tl = 1.5L * powl(10, -prec); for (size_t k = 0; k < nh; ++k) if (locate(q, d.holes[k].pts, tl) >= 0) in = marked[k] = true; CHECK(in, "Triangle input: point " << show(q) << " lies in no hole"); }
        for (size_t k = 0; k < nh; ++k) CHECK(marked[k], "Triangle input: no point lies in hole " << k);
        if (!d.holes.empty()) c.nontrivial = true; c.label("Triangle input");
    } else if (kind == 3) {
        SegmentMap m; std::map<E, std::pair<int, int>> want; int n = s.range(0, 40); auto idx = [&]() { return s.chance(30) ? s.range(999990, 1000030) : s.chance(20) ? s.range(0, INT32_MAX - 1) : s.range(0, 50); };
        for (int i = 0; i < n; ++i) { int a = idx(), b = idx(); if (a == b) continue; int x = idx(), y = s.chance(30) ? -1 : idx(); m.insert(IndexSegment(a, b), NeighboursBySegment(x, y)); want[ekey(a, b)] = {x, y}; c.desc << " " << a << "-" << b << ":" << x << "," << y; }
        m.printInFile(name); Lines L = tokens(slurp(path)); CHECK(L.size() == want.size(), "segment map file has " << L.size() << " lines for " << want.size() << " entries"); std::set<E> seen;
        for (auto& l : L) { CHECK(l.size() == 4, "segment map line has " << l.size() << " fields"); E k = ekey((int)intTok(l[0], "segment map"), (int)intTok(l[1], "segment map")); CHECK(want.count(k) && seen.insert(k).second, "segment map file lists edge " << l[0] << "-" << l[1]); CHECK(intTok(l[2], "segment map") == want[k].first && intTok(l[3], "segment map") == want[k].second, "edge " << k.first << "-" << k.second << " is written with neighbours " << l[2] << " " << l[3] << " instead of " << want[k].first << " " << want[k].second); }
        { V p(s.real(-100, 100), s.real(-1e6, 1e6)), q(s.real(-1, 1), s.dyadic(-50, 50, 3)); std::ofstream o(homeDir() + "seg.txt"); o << PointSegment(toP(p), toP(q)).getString() << "\n"; int a = idx(), b = idx(); o << EdgeData(a, b).getString() << "\n" << IndexSegment(a, b).getString() << "\n"; o.close(); Lines L = tokens(slurp(homeDir() + "seg.txt")); CHECK(L.size() == 3 && L[0].size() == 4 && L[1].size() == 2 && L[2].size() == 2, "segments are written with a wrong number of fields"); checkCoord(L[0][0], p.x, prec, "segment"); checkCoord(L[0][1], p.y, prec, "segment"); checkCoord(L[0][2], q.x, prec, "segment"); checkCoord(L[0][3], q.y, prec, "segment"); for (int i = 1; i < 3; ++i) CHECK(intTok(L[i][0], "edge") == a && intTok(L[i][1], "edge") == b, "edge " << a << "-" << b << " is written as " << L[i][0] << " " << L[i][1]); }
        c.nontrivial = n > 3; c.label("segment map");
    } else {
        PointMap m; std::vector<std::pair<V, std::vector<int>>> want; int n = s.range(0, 25); R cell = 1;
        for (int i = 0; i < n; ++i) { V p(s.range(-5, 5) * cell + 0.25L, s.range(-5, 5) * cell + s.range(0, 8) / 64.0L); p = dbl(p * (s.chance(50) ? 1 : 100.123L)); bool near = false; for (auto& w : want) if (fabsl(w.first.x - p.x) < 1e-3L && fabsl(w.first.y - p.y) < 1e-3L) near = true; if (near) continue; std::vector<int> v; int k = s.chance(10) ? s.range(7, 60) : s.range(1, 6); for (int j = 0; j < k; ++j) v.push_back(s.chance(20) ? s.range(999990, 2000000) : s.range(0, 40)); Point q = toP(p); if (s.chance(50)) m.insert(q, v); else for (int x : v) m.insert(q, x); want.push_back({p, v}); }
        m.printInFile(name); Lines L = tokens(slurp(path)); CHECK(L.size() == want.size(), "point map file has " << L.size() << " lines for " << want.size() << " entries"); std::vector<bool> used(want.size(), false);
        for (auto& l : L) { CHECK(l.size() >= 2, "point map line has " << l.size() << " fields"); bool ok = false; R lim = 0.5000001L * powl(10, -prec) + 1e-12L;
            for (size_t k = 0; k < want.size() && !ok; ++k) if (!used[k] && l.size() == want[k].second.size() + 2 && fabsl(strtold(l[0].c_str(), 0) - want[k].first.x) <= lim && fabsl(strtold(l[1].c_str(), 0) - want[k].first.y) <= lim) { bool eq = true; for (size_t j = 0; j < want[k].second.size(); ++j) if (l[j + 2] != std::to_string(want[k].second[j])) eq = false; if (eq) { used[k] = true; ok = true; } }
            std::string t; for (auto& w : l) t += w + " "; CHECK(ok, "point map line \"" << t << "\" matches no entry"); }
        c.nontrivial = want.size() > 2; c.label("point map");
    }
    checkOther();
}

// ---------------------------------------------------------------- P15
struct MeshSpec { std::vector<V> pts; std::vector<std::vector<int>> els; int start = 0; bool edges = false; int dups = 0; }; // els index pts
static MeshSpec genMeshSpec(Ctx& c, bool trianglesOnly) {
    Src& s = c.s; MeshSpec m; int nx = s.range(1, 5), ny = s.range(1, 5); double w = s.pick({1.0, 0.125, 10.0, 3.7}); double ox = s.dyadic(-100, 100, 4), oy = s.dyadic(-100, 100, 4);
    std::vector<V> base; for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { V p(i * w, j * w); if (s.chance(30)) p = p + quant(V(s.real(-0.3, 0.3) * w, s.real(-0.3, 0.3) * w), 1024); base.push_back(dbl(p + V(ox, oy))); }
    // position of each base point in the list: shuffled, some repeated, some unrelated points in between
    std::vector<int> order; for (size_t i = 0; i < base.size(); ++i) order.push_back((int)i); if (s.chance(50)) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.range(0, (int)i - 1)]);
    std::vector<std::vector<int>> at(base.size()); for (int b : order) { at[b].push_back((int)m.pts.size()); m.pts.push_back(base[b]); if (s.chance(8)) m.pts.push_back(dbl(V(ox - 50 - (double)m.pts.size(), oy))); }
    if (s.chance(50)) { int k = s.range(1, 6); for (int i = 0; i < k; ++i) { int b = s.range(0, (int)base.size() - 1); int pos = s.range(0, (int)m.pts.size()); V jit(s.chance(30) ? 2e-6 : 0, 0); for (auto& l : at) for (int& x : l) if (x >= pos) ++x; m.pts.insert(m.pts.begin() + pos, dbl(base[b] + jit)); at[b].push_back(pos); ++m.dups; } }
    auto P = [&](int i, int j) { auto& l = at[j * (nx + 1) + i]; return l[s.range(0, (int)l.size() - 1)]; };
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        int t = s.weighted({4, 3, 1, i + 1 < nx ? 1 : 0});
        if (t == 2 && m.els.size()) continue;
        if (trianglesOnly || t == 1) { m.els.push_back({P(i, j), P(i + 1, j), P(i + 1, j + 1)}); if (!s.chance(10)) m.els.push_back({P(i, j), P(i + 1, j + 1), P(i, j + 1)}); }
        else if (t == 3) { m.els.push_back({P(i, j), P(i + 1, j), P(i + 2, j), P(i + 2, j + 1), P(i + 1, j + 1), P(i, j + 1)}); ++i; }
        else m.els.push_back({P(i, j), P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)}); }
    for (auto& e : m.els) std::rotate(e.begin(), e.begin() + s.range(0, (int)e.size() - 1), e.end());
    if (s.chance(50)) for (size_t i = m.els.size(); i > 1; --i) std::swap(m.els[i - 1], m.els[s.range(0, (int)i - 1)]);
    m.start = s.chance(50) ? 1 : 0; m.edges = s.chance(40); return m;
}
static std::string num(Ctx& c, double v, bool plain) {
    char b[400]; int t = plain ? 0 : c.s.weighted({12, 2, 2, 1}); if (t == 0) snprintf(b, sizeof b, "%.17g", v); else if (t == 1) snprintf(b, sizeof b, "%.16e", v); else snprintf(b, sizeof b, t == 2 ? "%.17f" : "%.60f", v); return b;
}
static Lines specLines(Ctx& c, MeshSpec& m, bool plain) {
    Lines L; L.push_back({std::to_string(m.pts.size())});
    for (auto& p : m.pts) { std::string x = num(c, (double)p.x, plain), y = num(c, (double)p.y, plain); p = V(strtod(x.c_str(), 0), strtod(y.c_str(), 0)); L.push_back({x, y}); if (!plain && c.s.chance(4)) L.back().push_back("1"); }
    if (m.edges) { std::set<E> es; for (auto& e : m.els) for (size_t k = 0; k < e.size(); ++k) es.insert(ekey(e[k], e[(k + 1) % e.size()])); L.push_back({std::to_string(es.size())}); for (auto& e : es) L.push_back({std::to_string(e.first + m.start), std::to_string(e.second + m.start)}); }
    L.push_back({std::to_string(m.els.size())}); for (auto& e : m.els) { std::vector<std::string> l = {std::to_string(e.size())}; for (int k : e) l.push_back(std::to_string(k + m.start)); L.push_back(l); }
    return L;
}
static std::string joinLines(Ctx& c, const Lines& L, bool plain) {
    std::string t; int eol = plain ? 0 : c.s.weighted({8, 1, 1});
    for (size_t i = 0; i < L.size(); ++i) { if (!plain && c.s.chance(3)) t += "  "; for (size_t k = 0; k < L[i].size(); ++k) { if (k) t += plain ? " " : c.s.chance(5) ? "\t" : c.s.chance(5) ? "   " : " "; t += L[i][k]; } if (!plain && c.s.chance(3)) t += " "; if (eol == 1) t += "\r"; if (eol == 2 && i + 1 == L.size()) break; t += "\n"; }
    return t;
}
// the mesh must be exactly this one: expected distinct points in order of first occurrence, elements over them
template <class T> void checkRead(Mesh<T>& m, const std::vector<V>& pts, const std::vector<std::vector<int>>& els, double tol, const char* what) {
    std::vector<V> u; std::vector<int> map; for (auto& p : pts) { int f = -1; for (size_t k = 0; k < u.size(); ++k) if (fabsl(u[k].x - p.x) < 1e-5L && fabsl(u[k].y - p.y) < 1e-5L) { f = (int)k; break; } if (f < 0) { f = (int)u.size(); u.push_back(p); } map.push_back(f); }
    std::vector<Point> got = m.getPoints().getList(); CHECK(got.size() == u.size(), what << ": the mesh has " << got.size() << " points, " << u.size() << " are described"); for (size_t i = 0; i < u.size(); ++i) CHECK(fabsl(got[i].getX() - u[i].x) <= tol + 1e-13L * fabsl(u[i].x) && fabsl(got[i].getY() - u[i].y) <= tol + 1e-13L * fabsl(u[i].y), what << ": point " << i << " is " << show(toV(got[i])) << " instead of " << show(u[i]));
    std::vector<T> ge = m.getPolygons(); CHECK(ge.size() == els.size(), what << ": the mesh has " << ge.size() << " elements, " << els.size() << " are described");
    std::map<E, std::vector<int>> em; std::map<int, std::set<int>> pm;
    for (size_t i = 0; i < els.size(); ++i) {
        std::vector<int> w; for (int k : els[i]) w.push_back(map[k]); std::vector<int> g = ge[i].getPoints(); bool same = false; if (g.size() == w.size()) for (size_t k = 0; k < w.size() && !same; ++k) { std::rotate(g.begin(), g.begin() + 1, g.end()); same = g == w; }
        if (!same) { std::ostringstream a, b; for (int k : w) a << k << " "; for (int k : ge[i].getPoints()) b << k << " "; CHECK(false, what << ": element " << i << " is " << b.str() << "instead of " << a.str()); }
        for (size_t k = 0; k < w.size(); ++k) { em[ekey(w[k], w[(k + 1) % w.size()])].push_back((int)i); pm[w[k]].insert((int)i); } }
    CHECK(m.getSegments()->size() == (int)em.size(), what << ": the mesh has " << m.getSegments()->size() << " edges, the elements have " << em.size());
    for (auto& e : em) { CHECK(m.getSegments()->containsSegment(IndexSegment(e.first.first, e.first.second)), what << ": edge " << e.first.first << "-" << e.first.second << " is missing"); NeighboursBySegment n = m.getNeighbours(IndexSegment(e.first.second, e.first.first)); std::multiset<int> a = {n.getFirst(), n.getSecond()}, b(e.second.begin(), e.second.end()); if (b.size() == 1) b.insert(-1); CHECK(a == b, what << ": edge " << e.first.first << "-" << e.first.second << " has neighbours " << n.getFirst() << "," << n.getSecond() << " instead of " << e.second[0] << "," << (e.second.size() > 1 ? e.second[1] : -1)); }
    CHECK(m.getPointMap()->size() == (int)pm.size(), what << ": the point map has " << m.getPointMap()->size() << " entries, elements use " << pm.size() << " points");
    for (auto& w : pm) { auto it = m.getPointMap()->getMap().find(got[w.first]); CHECK(it != m.getPointMap()->getMap().end(), what << ": point " << w.first << " is not in the point map"); std::vector<int> l = it->second.getNeighbours(); CHECK(std::set<int>(l.begin(), l.end()) == w.second, what << ": point " << w.first << " is used by " << w.second.size() << " elements, the point map lists " << l.size() << " (or others)"); }
}
template <class T> static void readCase(Ctx& c, bool triangles) {
    MeshSpec m = genMeshSpec(c, triangles); Lines L = specLines(c, m, false); std::string text = joinLines(c, L, false); c.desc << "start " << m.start << (triangles ? " triangles" : "") << " file:\n" << text;
    spit(homeDir() + "in.txt", text); Mesh<T> r; r.createFromFile("in.txt", m.start); checkRead(r, m.pts, m.els, 0, "file"); CHECK(slurp(homeDir() + "in.txt") == text, "reading a mesh changed the file");
    c.nontrivial = m.els.size() > 2; if (m.dups) c.label("repeated points"); if (m.edges) c.label("edges listed"); c.label(m.start ? "one-based" : "zero-based"); c.label(triangles ? "triangle mesh" : "polygon mesh");
    if (c.s.chance(40)) { DelynoiConfig::instance()->setPrecision(10); r.printInFile("again.txt"); Mesh<T> q; q.createFromFile("again.txt", 0); checkRead(q, m.pts, m.els, 1e-9, "file printed after reading"); c.label("printed and read again"); }
}
PROPERTY(P15, 600) {
    int kind = c.s.weighted({5, 2, 3, 2});
    if (kind == 0) readCase<Polygon>(c, false);
    else if (kind == 1) readCase<Triangle>(c, true);
    else { // a mesh the library made, printed and read back
        int prec = c.s.pick({10, 16, 12, 8}); DomainOpts o; Domain d = genMeshDomain(c, o); SeedOpts so; so.max = 12; so.bigChance = 1; so.bigMax = 60; Seeds sd = genSeeds(c, d, so); labelDomain(c, d); describe(c, d); describe(c, sd); DelynoiConfig::instance()->setPrecision(prec); c.desc << " precision " << prec; Region r = makeRegion(d); std::vector<Point> sp = seedPts(sd);
        auto back = [&](auto& m, auto& q) { m.printInFile("rt.txt"); q.createFromFile("rt.txt", 0); std::vector<V> pts; for (auto& p : m.getPoints().getList()) pts.push_back(toV(p)); std::vector<std::vector<int>> els; for (auto& e : m.getPolygons()) els.push_back(e.getPoints());
            // points closer than 3e-5 may merge or not after rounding
            std::vector<V> sorted = pts; std::sort(sorted.begin(), sorted.end(), [](V a, V b) { return a.x < b.x; }); for (size_t i = 0; i < sorted.size(); ++i) for (size_t j = i + 1; j < sorted.size() && sorted[j].x - sorted[i].x < 3e-5L; ++j) if (fabsl(sorted[j].y - sorted[i].y) < 3e-5L) { c.label("near points"); return; }
            checkRead(q, pts, els, 0.51 * pow(10, -prec), "printed mesh");
            // maps of the printed mesh and of the one read agree
            for (auto& kv : m.getSegments()->getMap()) { NeighboursBySegment n = q.getNeighbours(kv.first); std::multiset<int> a = {n.getFirst(), n.getSecond()}, b = {kv.second.getFirst(), kv.second.getSecond()}; CHECK(a == b, "edge " << kv.first.getString() << " has neighbours " << n.getString() << " after reading, " << kv.second.getString() << " before"); }
            c.nontrivial = els.size() > 3; };
        if (kind == 2) { TriangleVoronoiGenerator g(sp, r); Mesh<Polygon> m = g.getMesh(), q0; Mesh<Polygon> q; back(m, q); c.label("round trip Voronoi"); }
        else { TriangleDelaunayGenerator g(sp, r); Mesh<Triangle> m = c.s.chance(50) ? g.getConstrainedDelaunayTriangulation() : g.getConformingDelaunayTriangulation(); Mesh<Triangle> q; back(m, q); c.label("round trip Delaunay"); }
    }
}

// ---------------------------------------------------------------- P21
// Strict reference parser. 1 valid, 0 invalid, -1 not decided by the property (left out).
static int refNum(const std::string& s, double& v) { // decimal numbers only; anything else that strtod knows is left out
    size_t i = 0; int nd = 0; if (i < s.size() && s[i] == '-') ++i; else if (i < s.size() && s[i] == '+') return -1;
    while (i < s.size() && isdigit(s[i])) { ++i; ++nd; } if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit(s[i])) { ++i; ++nd; } } if (!nd) { std::string t; for (char ch : s) t += (char)tolower(ch); if (t.find("0x") != std::string::npos) return -1; return 0; }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; int ed = 0; while (i < s.size() && isdigit(s[i])) { ++i; ++ed; } if (!ed) return 0; }
    if (i != s.size()) return (s.size() > 1 && s.find_first_of("xX") != std::string::npos) ? -1 : 0;
    v = strtod(s.c_str(), 0); return std::isfinite(v) ? 1 : 0;
}
static int refInt(const std::string& s, long long& v) { if (s.size() && s[0] == '+') return -1; if (!plainInt(s)) return 0; if (s.size() > 15) return 0; v = atoll(s.c_str()); return v >= INT32_MIN && v <= INT32_MAX; }
static int refPoints(const Lines& L, size_t& at, std::vector<V>& pts) {
    if (at >= L.size() || L[at].empty()) return 0; long long n; int ok = refInt(L[at][0], n); if (ok != 1) return ok; if (n < 0) return 0; if (L[at].size() != 1) return -1; ++at; int res = 1;
    for (long long i = 0; i < n; ++i, ++at) { if (at >= L.size() || L[at].size() < 2) return 0; double x, y; int a = refNum(L[at][0], x), b = refNum(L[at][1], y); if (a == 0 || b == 0) return 0; if (a < 0 || b < 0) res = -1; if (fabs(x) > 1e12 || fabs(y) > 1e12) res = -1; pts.push_back(V(x, y)); }
    return res;
}
static int refMesh(const Lines& L, int start, std::vector<V>& pts, std::vector<std::vector<int>>& els) {
    size_t at = 0; int res = refPoints(L, at, pts); if (res == 0) return 0; if (res < 0) return -1; bool edges = false;
    for (;;) {
        if (at >= L.size() || L[at].empty()) return 0; long long n; int ok = refInt(L[at][0], n); if (ok != 1) return ok; if (n < 0) return 0; if (L[at].size() != 1) return -1; ++at;
        bool isEdges = !edges && n > 0 && at < L.size() && L[at].size() == 2; 
        for (long long i = 0; i < n; ++i, ++at) {
            if (at >= L.size()) return 0; auto& l = L[at]; size_t from = 0, k = 2;
            if (!isEdges) { if (l.empty()) return 0; long long q; int o = refInt(l[0], q); if (o != 1) return o; if (q < 3 || (long long)l.size() != q + 1) return 0; from = 1; k = (size_t)q; }
            else if (l.size() != 2) return 0;
            std::vector<int> e; for (size_t j = from; j < from + k; ++j) { long long q; int o = refInt(l[j], q); if (o != 1) return o; q -= start; if (q < 0 || q >= (long long)pts.size()) return 0; e.push_back((int)q); }
            if (!isEdges) els.push_back(e); }
        if (!isEdges) return 1; edges = true;
    }
}
static std::string badToken(Ctx& c) { return c.s.pick(std::vector<std::string>{"x", "abc", "1.5", "-1", "nan", "inf", "-inf", "--3", "1e", "1.2.3", "1,5", "9999999999", "1e999", "-", ".", "12abc", "-0", "1e3", "1e-3", "100000", "0", "3", "#", "NaN", "2147483648", "5;"}); }
static void mutateLines(Ctx& c, Lines& L, std::string& what) {
    Src& s = c.s; if (L.empty()) return; size_t i = s.range(0, (int)L.size() - 1); auto tok = [&]() -> int { return L[i].empty() ? -1 : s.range(0, (int)L[i].size() - 1); };
    int t = s.range(0, 9); std::ostringstream o; o << " mutation " << t << "@" << i;
    switch (t) {
    case 0: L.resize(i); break;                                                                                   // truncated
    case 1: { int k = tok(); if (k >= 0) L[i].erase(L[i].begin() + k); break; }                                     // field missing
    case 2: { int k = tok(); if (k >= 0) { L[i][k] = badToken(c); o << L[i][k]; } break; }                           // field replaced
    case 3: { int k = tok(); if (k >= 0) { long long v = atoll(L[i][k].c_str()) + s.pick({1, -1, 2, -2, 1000, -1000, 100000}); L[i][k] = std::to_string(v); } break; }
    case 4: L.erase(L.begin() + i); break;                                                                         // line missing
    case 5: L.insert(L.begin() + i, L[i]); break;                                                                  // line repeated
    case 6: L.insert(L.begin() + i, std::vector<std::string>()); break;                                            // empty line
    case 7: L[i].insert(L[i].begin() + s.range(0, (int)L[i].size()), badToken(c)); break;                          // field added
    case 8: { size_t j = s.range(0, (int)L.size() - 1); std::swap(L[i], L[j]); break; }
    default: { // one of the count lines
        std::vector<size_t> cnt; for (size_t k = 0; k < L.size(); ++k) if (L[k].size() == 1) cnt.push_back(k); if (cnt.empty()) break; size_t k = cnt[s.range(0, (int)cnt.size() - 1)]; L[k][0] = s.chance(50) ? std::to_string(atoll(L[k][0].c_str()) + s.pick({1, -1, 2, 7, 10000})) : badToken(c); o << " count " << L[k][0]; }
    }
    what += o.str();
}
PROPERTY(P21, 600) {
    Src& s = c.s; int kind = s.weighted({4, 4, 3, 2, 1, 1, 1});
    if (kind == 0) { // seed files
        std::vector<Point> sq = {Point(-1e13, -1e13), Point(1e13, -1e13), Point(1e13, 1e13), Point(-1e13, 1e13)};
        Domain d; d.outline = {V(-200, -200), V(200, -200), V(200, 200), V(-200, 200)}; std::vector<Point> op = toPts(d.outline); Region r(op); std::vector<Point> pre = {Point(1, 2)}; r.addSeedPoints(pre);
        Lines L; int n = s.range(0, 12); L.push_back({std::to_string(n)}); for (int i = 0; i < n; ++i) L.push_back({num(c, s.dyadic(-150, 150, 4), false), num(c, s.real(-150, 150), false)});
        int muts = s.weighted({2, 5, 3, 1}); std::string what; for (int i = 0; i < muts; ++i) mutateLines(c, L, what); std::string text = joinLines(c, L, false); if (muts && s.chance(15)) { text.resize(s.range(0, (int)text.size())); what += " cut"; } spit(homeDir() + "seeds.txt", text); c.desc << "seed file" << what << ":\n" << text;
        std::vector<V> want; size_t at = 0; int verdict = refPoints(tokens(text), at, want); for (auto& v : want) if (fabsl(fabsl(v.x) - 200) < 1e-3L || fabsl(fabsl(v.y) - 200) < 1e-3L) verdict = verdict == 1 ? -1 : verdict; 
        bool thrown = false; try { r.addSeedsFromFile("seeds.txt"); } catch (const std::exception&) { thrown = true; }
        if (verdict == 0) { CHECK(thrown, "a malformed seed file was accepted"); c.label("malformed seed file"); c.nontrivial = true; }
        else if (verdict == 1) { CHECK(!thrown, "a valid seed file was rejected"); std::vector<V> in = {V(1, 2)}; for (auto& v : want) if (fabsl(v.x) <= 200 && fabsl(v.y) <= 200) in.push_back(v); std::vector<Point> got = r.getSeedPoints(); CHECK(got.size() == in.size(), "the region has " << got.size() << " seeds after reading, " << in.size() << " expected"); for (size_t i = 0; i < in.size(); ++i) CHECK(dist(toV(got[i]), in[i]) <= 1e-12L * (1 + len(in[i])), "seed " << i << " is " << show(toV(got[i])) << " instead of " << show(in[i])); c.label("valid seed file"); }
        if (thrown) { std::vector<Point> got = r.getSeedPoints(); CHECK(!got.empty() && got[0].getX() == 1 && got[0].getY() == 2, "a rejected seed file removed the seeds already there"); for (size_t i = 1; i < got.size(); ++i) { bool known = false; for (auto& v : want) if (dist(v, toV(got[i])) < 1e-9L * (1 + len(v))) known = true; CHECK(known, "seed " << show(toV(got[i])) << " was invented from a malformed file"); } }
    } else if (kind == 1) { // mesh files
        bool tri = s.chance(30); MeshSpec m = genMeshSpec(c, tri); Lines L = specLines(c, m, false); int muts = s.weighted({2, 5, 3, 1}); std::string what; for (int i = 0; i < muts; ++i) mutateLines(c, L, what); std::string text = joinLines(c, L, false); if (muts && s.chance(15)) { text.resize(s.range(0, (int)text.size())); what += " cut"; } spit(homeDir() + "mesh.txt", text); c.desc << "mesh file, start " << m.start << what << ":\n" << text;
        std::vector<V> pts; std::vector<std::vector<int>> els; int verdict = refMesh(tokens(text), m.start, pts, els); bool simple = true; // elements using one point twice or more than two per edge are not described by P15
        if (verdict == 1) { std::map<E, int> cnt; auto same = [&](int a, int b) { return fabsl(pts[a].x - pts[b].x) < 3e-5L && fabsl(pts[a].y - pts[b].y) < 3e-5L; }; for (auto& e : els) for (size_t a = 0; a < e.size(); ++a) for (size_t b = a + 1; b < e.size(); ++b) if (same(e[a], e[b])) simple = false; std::vector<int> rep(pts.size()); for (size_t i = 0; i < pts.size(); ++i) { rep[i] = (int)i; for (size_t j = 0; j < i; ++j) if (same((int)j, (int)i)) { if (fabsl(pts[i].x - pts[j].x) > 5e-6L || fabsl(pts[i].y - pts[j].y) > 5e-6L) simple = false; rep[i] = rep[j]; break; } }
            for (auto& e : els) for (size_t a = 0; a < e.size(); ++a) if (++cnt[ekey(rep[e[a]], rep[e[(a + 1) % e.size()]])] > 2) simple = false; }
        bool thrown = false; std::string why;
        auto go = [&](auto& r) { try { r.createFromFile("mesh.txt", m.start); } catch (const std::exception& e) { thrown = true; why = e.what(); } if (verdict == 1 && simple) { CHECK(!thrown, "a valid mesh file was rejected: " << why); checkRead(r, pts, els, 0, "file"); } };
        if (tri && (verdict != 1 || std::all_of(els.begin(), els.end(), [](const std::vector<int>& e) { return e.size() == 3; }))) { Mesh<Triangle> r; go(r); } else { Mesh<Polygon> r; go(r); }
        if (verdict == 0) { CHECK(thrown, "a malformed mesh file was accepted"); c.label("malformed mesh file"); c.nontrivial = true; } else if (verdict == 1) c.label("valid mesh file");
    } else if (kind == 2) { // outlines
        Poly p; bool crossed = s.chance(70); if (crossed) { if (!genCrossed(c, p)) { c.label("no crossing"); return; } } else { std::string kd; R k; p = genSimple(c, kd, k); }
        c.desc << (crossed ? "crossed " : "simple ") << show(p); std::vector<Point> pts = toPts(p);
        for (int w = 0; w < (crossed ? 5 : 7); ++w) { bool thrown = false; std::vector<Point> a = pts; static const char* nm[] = {"Region", "Polygon", "PolygonalHole", "Region::mutate", "Polygon::mutate", "indexed Polygon", "indexed Triangle"}; if (w == 6 && p.size() != 3) continue;
            try { if (w == 0) Region r(a); else if (w == 1) Polygon q(a); else if (w == 2) PolygonalHole h(a); else if (w >= 5) { std::vector<int> ix; for (size_t i = 0; i < a.size(); ++i) ix.push_back((int)((i + 1) % a.size())); if (w == 5) Polygon q(ix, a); else Triangle q(ix, a); } else { std::vector<Point> tri = {Point(0, 0), Point(1, 0), Point(0, 1)}; if (w == 3) { Region r(tri); r.mutate(a); } else { Polygon q(tri); q.mutate(a); } } } catch (const std::exception&) { thrown = true; }
            CHECK(thrown == crossed, nm[w] << (crossed ? " accepted a self-intersecting outline" : " rejected a simple outline")); }
        if (crossed) c.nontrivial = true; c.label(crossed ? "self-intersecting" : "simple outline");
    } else if (kind == 3) { // centre triangulation of a polygon with a reflex vertex
        std::string kd; R k; Poly p = genSimple(c, kd, k); R a = sarea(p) > 0 ? 1 : -1; bool reflex = false, unclear = false; size_t n = p.size(); for (size_t i = 0; i < n; ++i) { R o = a * orient(p[i], p[(i + 1) % n], p[(i + 2) % n]), m = 1e-3L * dist(p[i], p[(i + 1) % n]) * dist(p[(i + 1) % n], p[(i + 2) % n]); if (o < -m) reflex = true; else if (o < m) unclear = true; }
        if (!reflex && unclear) { c.label("nearly flat"); return; } c.desc << "centre triangulation of " << show(p); std::vector<Point> pts = toPts(p); Polygon q(pts); bool thrown = false; try { CenterTriangulationGenerator().triangulate(q, pts); } catch (const std::exception&) { thrown = true; }
        CHECK(thrown == reflex, "centre triangulation " << (thrown ? "rejected a convex" : "accepted a non-convex") << " polygon"); if (reflex) c.nontrivial = true; c.label(reflex ? "non-convex" : "convex");
    } else if (kind == 4) { // generator misuse
        Functor* f = s.pick({0, 1}) ? functions::uniform(2) : functions::constant(); int v = s.range(0, 2); bool thrown = false; c.desc << "one rule, variable " << v; try { PointGenerator g(f, v == 0 ? functions::independent_variable::both : v == 1 ? functions::independent_variable::x : functions::independent_variable::y); } catch (const std::exception&) { thrown = true; } CHECK(thrown == (v == 0), "a generator with one rule was " << (thrown ? "rejected" : "accepted") << " for variable " << v); c.nontrivial = v == 0; c.label("one-rule generator");
    } else if (kind == 5) { // triangles
        int n = s.pick({3, 3, 3, 2, 4, 0}); std::vector<int> t; for (int i = 0; i < n; ++i) t.push_back(s.range(0, 4)); bool bad = n != 3 || t[0] == t[1] || t[1] == t[2] || t[0] == t[2]; c.desc << "triangle of"; for (int x : t) c.desc << " " << x; bool thrown = false; std::vector<int> arg = t; try { delynoi_utilities::checkTriangleIntegrity(arg); } catch (const std::exception&) { thrown = true; } CHECK(thrown == bad, "a triangle " << (bad ? "without three distinct vertices was accepted" : "with three distinct vertices was rejected")); CHECK(arg == t, "the integrity check changed the triangle"); c.nontrivial = bad; c.label("triangle integrity");
    } else { // missing and empty files
        std::string n = s.pick(std::vector<std::string>{"none.txt", "nodir/none.txt", "", "empty.txt"}); spit(homeDir() + "empty.txt", ""); c.desc << "missing file \"" << n << "\""; bool t1 = false, t2 = false; std::vector<Point> sq = {Point(0, 0), Point(1, 0), Point(1, 1), Point(0, 1)}; Region r(sq); Mesh<Polygon> m; try { r.addSeedsFromFile(n); } catch (const std::exception&) { t1 = true; } try { m.createFromFile(n, 0); } catch (const std::exception&) { t2 = true; }
        CHECK(t1, "reading seeds from missing or empty file \"" << n << "\" does not raise"); CHECK(t2, "reading a mesh from missing or empty file \"" << n << "\" does not raise"); CHECK(r.getSeedPoints().empty() && m.getPolygons().empty(), "data was invented for a missing file"); c.nontrivial = true; c.label("missing file");
    }
}
// a seed closer to an outline or hole segment than the tolerance, but not on it
KNOWN(P21_seed_within_tolerance_of_edge) {
    std::vector<Point> sq = {Point(0, 0), Point(10, 0), Point(10, 10), Point(0, 10)}, sp = {Point(5, 1e-7)}; Region r(sq); std::string what;
    try { TriangleVoronoiGenerator g(sp, r); } catch (std::exception& e) { what = e.what(); }
    CHECK(what.empty(), "the Voronoi diagram of the square with the seed (5,1e-7) raises \"" << what << "\"");
}
