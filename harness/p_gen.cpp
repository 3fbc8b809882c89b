// P10 point generators, P22 circles and arcs, P23 configuration, P25 utility functions
#include "meshcheck.h"
#include <limits>
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/models/generator/noise/noise.h>
#include <delynoi/models/basic/Angle.h>
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/models/polygon/BoundingBox.h>
#include <delynoi/models/polygon/Circle.h>
#include <delynoi/utilities/delynoi_utilities.h>
#include <delynoi/utilities/geometryFunctions.h>
#include <utilities/utilities.h>
#include <utilities/Pair.h>

// ---------------------------------------------------------------- P10
// A rule with its reference: the interval [lo,hi] (a point for exact rules) its value may take on each call, and an
// optional set of two intervals for noise (value in base±[nmin,nmax]).
struct Rule {
    int kind; double a = 0, b = 0, ph = 0; int noise = 0; double nmin = 0, nmax = 0; Functor* f = nullptr; std::string text;
    bool first = true; long calls = 0; double delta = 0; long nX = 0; // reference state
    double base(double x, long j, long i) { // exact value before noise (not for random rules)
        ++calls;
        switch (kind) {
        case 0: return x;
        case 1: return x * a;
        case 2: return a * sin(M_PI * b * x + ph * M_PI / 180);
        case 3: return a * cos(M_PI * b * x + ph * M_PI / 180);
        case 4: return calls % 2 == 1 ? x + a / 2 : x;
        case 5: return i % 2 ? x + delta / 2 : x;
        default: return 0;
        }
    }
    bool random() const { return kind >= 6; }
};
static Rule genRule(Ctx& c, bool alternatingOk) {
    Src& s = c.s; Rule r; r.kind = s.weighted({3, 2, 2, 2, 3, alternatingOk ? 3 : 0, 1, 1});
    std::ostringstream t; t << std::setprecision(10);
    auto num = [&]() { return s.chance(50) ? s.dyadic(-5, 5, 4) : s.real(-5, 5); };
    switch (r.kind) {
    case 0: r.f = functions::constant(); t << "constant"; break;
    case 1: r.a = num(); r.f = functions::uniform(r.a); t << "uniform(" << r.a << ")"; break;
    case 2: case 3: r.a = num(); r.b = s.chance(50) ? s.range(-3, 3) : s.real(-3, 3); r.ph = s.chance(50) ? s.range(-12, 12) * 30.0 : s.real(-400, 400); r.f = r.kind == 2 ? functions::sine(r.a, r.b, r.ph) : functions::cosine(r.a, r.b, r.ph); t << (r.kind == 2 ? "sine(" : "cosine(") << r.a << "," << r.b << "," << r.ph << ")"; break;
    case 4: r.a = num(); r.f = functions::displace_points(r.a); t << "displace(" << r.a << ")"; break;
    case 5: r.f = functions::constantAlternating(); t << "alternating"; break;
    case 6: { int lo = s.range(-50, 50), hi = lo + s.range(0, s.pick({3, 2000})); r.a = lo; r.b = hi; r.f = functions::random_integer(lo, hi); t << "randint(" << lo << "," << hi << ")"; break; }
    default: r.a = num(); r.b = r.a + s.real(0, 10); r.f = functions::random_double(r.a, r.b); t << "rand(" << r.a << "," << r.b << ")"; break;
    }
    r.noise = s.weighted({6, 1, 1});
    if (r.noise == 1) { r.nmin = s.real(0, 2); r.nmax = r.nmin + s.real(0, 2); r.f = noise::random_double_noise(r.f, r.nmin, r.nmax); t << "~noise(" << r.nmin << "," << r.nmax << ")"; }
    if (r.noise == 2) { r.nmin = s.range(0, 3); r.nmax = r.nmin + s.range(0, 5); r.f = noise::random_integer_noise(r.f, r.nmin, r.nmax); t << "~intnoise(" << r.nmin << "," << r.nmax << ")"; }
    r.text = t.str(); return r;
}
static void checkRule(Rule& r, double x, long j, long i, double got, double add, const char* axis) {
    double v = got - add; double M = 1 + fabs(x) + fabs(got) + fabs(add) + fabs(r.a) + r.nmax; double tol = 1e-9 * M * (r.kind == 2 || r.kind == 3 ? 1 + fabs(r.b) : 1);
    CHECK(std::isfinite(got), axis << " coordinate of point " << i << "," << j << " is " << got);
    if (r.random()) { r.base(x, j, i);
        CHECK(v >= r.a - r.nmax - tol && v <= r.b + r.nmax + tol, axis << " value " << v << " of point " << i << "," << j << " is outside of the interval of " << r.text);
        if (r.kind == 6 && r.noise != 1) CHECK(fabs(v - round(v)) < tol, axis << " value " << v << " of " << r.text << " is not an integer");
        return; }
    double w = r.base(x, j, i), d = v - w;
    if (!r.noise) CHECK(fabs(d) <= tol, axis << " value of point row " << i << " column " << j << " is " << v << ", the rule " << r.text << " gives " << w << " (coordinate " << x << ")");
    else { CHECK(fabs(d) >= r.nmin - tol && fabs(d) <= r.nmax + tol, axis << " value of point row " << i << " column " << j << " is " << v << ": noise of " << d << " over " << w << " is outside the bounds of " << r.text);
        if (r.noise == 2) CHECK(fabs(d - round(d)) <= tol, "integer noise of " << d); }
}
PROPERTY(P10, 400) {
    Src& s = c.s; int rounds = s.range(1, 3); std::vector<Point> out; size_t total = 0;
    int pre = s.range(0, 3); for (int i = 0; i < pre; ++i) out.push_back(Point(s.range(-9, 9), s.range(-9, 9)));
    std::vector<V> prefix; for (auto& p : out) prefix.push_back(toV(p));
    auto num = [&]() { return s.chance(60) ? s.dyadic(-20, 20, 4) : s.real(-500, 500); };
    for (int rd = 0; rd < rounds; ++rd) {
        // one generator, used once or several times, each time with another box
        struct Use { Point p1, p2; int nX, nY; double xm, ym, dX, dY, W, H; }; std::vector<Use> uses; int nu = s.chance(35) ? s.range(2, 3) : 1; bool alt = true;
        for (int u = 0; u < nu; ++u) {
            int nX = s.pick({1, 2, 3, 5, 8, 21}), nY = s.pick({1, 2, 3, 4, 7, 18}); if (s.chance(4)) (s.chance(50) ? nX : nY) = 0; if (s.chance(30)) { nX = s.range(1, 30); nY = s.range(1, 30); } if (s.chance(2)) (s.chance(50) ? nX : nY) = s.range(31, 300);
            Use e; e.p1 = Point(num(), num()); e.p2 = Point(num(), num()); if (u && s.chance(40)) { e.p1 = uses[0].p1; e.p2 = uses[0].p2; } e.nX = nX; e.nY = nY; e.xm = std::min(e.p1.getX(), e.p2.getX()); e.ym = std::min(e.p1.getY(), e.p2.getY()); e.W = fabs(e.p1.getX() - e.p2.getX()); e.H = fabs(e.p1.getY() - e.p2.getY()); e.dX = nX > 1 ? e.W / (nX - 1) : 0; e.dY = nY > 1 ? e.H / (nY - 1) : 0;
            if (!(nX >= 2 && e.dX > 1e-6 * (1 + fabs(e.xm) + e.W))) alt = false;
            uses.push_back(e); }
        int var = s.weighted({4, 2, 2});
        if (s.chance(10)) { Rule r = genRule(c, false); bool thrown = false; try { PointGenerator g(r.f, functions::independent_variable::both); } catch (std::exception&) { thrown = true; } CHECK(thrown, "a generator with one rule and both variables free was accepted"); c.label("both rejected"); }
        Rule rx0, ry0; PointGenerator g;
        if (var == 0) { rx0 = genRule(c, alt); ry0 = genRule(c, false); c.desc << " x:" << rx0.text << " y:" << ry0.text; g = PointGenerator(rx0.f, ry0.f); }
        else if (var == 1) { ry0 = genRule(c, alt); c.desc << " y+=" << ry0.text << "(x)"; g = PointGenerator(ry0.f, functions::independent_variable::x); }
        else { rx0 = genRule(c, false); c.desc << " x+=" << rx0.text << "(y)"; g = PointGenerator(rx0.f, functions::independent_variable::y); }
        for (int u = 0; u < nu; ++u) { const Use& e = uses[u]; int nX = e.nX, nY = e.nY; double xm = e.xm, ym = e.ym, dX = e.dX, dY = e.dY, W = e.W, H = e.H; BoundingBox box(e.p1, e.p2); Rule rx = rx0, ry = ry0; rx.delta = ry.delta = dX; c.desc << " box " << show(toV(e.p1)) << show(toV(e.p2)) << " " << nX << "x" << nY; if (u) c.label("generator used again");
        std::vector<V> before; for (auto& p : out) before.push_back(toV(p));
        PointGenerator copy = g; (s.chance(30) ? copy : g).generate(out, box, nX, nY);
        CHECK(out.size() == before.size() + (size_t)nX * nY, "generate(" << nX << "," << nY << ") appended " << (long)out.size() - (long)before.size() << " points");
        for (size_t k = 0; k < before.size(); ++k) CHECK(out[k].getX() == (double)before[k].x && out[k].getY() == (double)before[k].y, "existing entry " << k << " of the output list was changed");
        for (int i = 0; i < nY; ++i) for (int j = 0; j < nX; ++j) {
            Point& p = out[before.size() + (size_t)i * nX + j]; double x = xm + j * dX, y = ym + i * dY;
            if (var == 0) { checkRule(rx, x, j, i, p.getX(), 0, "x"); checkRule(ry, y, j, i, p.getY(), 0, "y"); }
            else if (var == 1) { CHECK(fabs(p.getX() - x) <= 1e-10 * (1 + fabs(xm) + W), "x of point row " << i << " column " << j << " is " << p.getX() << ", expected " << x); checkRule(ry, x, j, i, p.getY(), y, "y"); }
            else { CHECK(fabs(p.getY() - y) <= 1e-10 * (1 + fabs(ym) + H), "y of point row " << i << " column " << j << " is " << p.getY() << ", expected " << y); checkRule(rx, y, j, i, p.getX(), x, "x"); }
        }
        // random rules must not always give the same number (chance of a false alarm below 1e-60)
        for (int ax = 0; ax < 2; ++ax) { Rule& r = ax ? ry : rx; if (var == 0 && r.f && r.random() && !r.noise && r.b - r.a > 100 && nX * nY >= 30) { std::set<double> vals; for (int k = 0; k < nX * nY; ++k) vals.insert(ax ? out[before.size() + k].getY() : out[before.size() + k].getX()); CHECK(vals.size() > 1, r.text << " always gives the same value"); } }
        if (nX >= 2 && nY >= 2) c.nontrivial = true; if (nX == 1 || nY == 1) c.label("single row or column");
        total += (size_t)nX * nY;
        const char* nm[] = {"constant", "uniform", "sine", "cosine", "displace", "alternating", "random integer", "random double"};
        if (rx.f) { c.label(nm[rx.kind]); if (rx.noise) c.label("noise"); } if (ry.f) { c.label(nm[ry.kind]); if (ry.noise) c.label("noise"); }
        c.label(var == 0 ? "two rules" : var == 1 ? "x free" : "y free");
        }
    }
}

// ---------------------------------------------------------------- P22
static void checkCircle(const std::vector<Point>& pts, V ctr, R r, int grade, const char* what) {
    CHECK((int)pts.size() == grade, what << " has " << pts.size() << " points for a discretisation grade of " << grade);
    R tol = 1e-10L * (1 + fabsl(ctr.x) + fabsl(ctr.y) + r);
    for (int i = 0; i < grade; ++i) { R a = 2 * M_PIl * i / grade; V w(ctr.x + r * cosl(a), ctr.y + r * sinl(a)); CHECK(dist(toV(pts[i]), w) <= tol, what << ": point " << i << " of " << grade << " is " << show(toV(pts[i])) << ", expected " << show(w)); }
}
PROPERTY(P22, 80) {
    Src& s = c.s; int rounds = s.range(1, 3); DelynoiConfig* cfg = DelynoiConfig::instance();
    for (int rd = 0; rd < rounds; ++rd) {
        int g = s.chance(20) ? 12 : s.chance(80) ? s.range(3, 60) : s.range(3, 400); cfg->setDiscretizationGrade(g);
        bool round = s.chance(40); V ctr = round ? V(s.range(-20, 20), s.range(-20, 20)) : V(s.real(-1000, 1000), s.real(-1000, 1000)); double r = round ? s.range(1, 20) * 0.5 : s.chance(80) ? s.real(0.01, 50) : s.real(0.01, 1e4);
        c.desc << " grade " << g << " centre " << show(ctr) << " r " << r; if (360 % g) { c.label("grade does not divide 360"); } if (g > 360) c.label("grade above 360"); if (g != 12) c.nontrivial = true;
        int what = s.range(0, 2); Point C = toP(ctr); R tol = 1e-10L * (1 + fabsl(ctr.x) + fabsl(ctr.y) + r);
        if (what == 0) { Circle k(r, C); checkCircle(k.discretizeCircle(), ctr, r, g, "circle"); if (s.chance(40)) { int g2 = s.range(3, 50); cfg->setDiscretizationGrade(g2); checkCircle(k.discretizeCircle(), ctr, r, g2, "circle after a grade change"); c.label("grade changed"); } c.label("circle"); }
        else if (what == 1) {
            CircularHole h(C, r); checkCircle(h.getPoints(), ctr, r, g, "circular hole"); CHECK(h.getCenter().getX() == C.getX() && h.getCenter().getY() == C.getY(), "centre of the circular hole is " << show(toV(h.getCenter())));
            if (s.chance(30)) { cfg->setDiscretizationGrade(s.range(3, 50)); checkCircle(h.getPoints(), ctr, r, g, "circular hole made before a grade change"); c.label("grade changed"); }
            int off = s.range(0, 40); std::vector<IndexSegment> segs; int pre = s.range(0, 2); for (int i = 0; i < pre; ++i) segs.push_back(IndexSegment(-5 - i, -9)); h.getSegments(segs, off);
            CHECK((int)segs.size() == g + pre, "circular hole of " << g << " points gives " << segs.size() - pre << " segments"); for (int i = 0; i < g; ++i) CHECK(segs[pre + i].getFirst() == off + i && segs[pre + i].getSecond() == off + (i + 1) % g, "segment " << i << " of the circular hole is " << segs[pre + i].getFirst() << "-" << segs[pre + i].getSecond() << " with offset " << off);
            for (int i = 0; i < 6; ++i) { V q = ctr + V(s.real(-1.6, 1.6) * r, s.real(-1.6, 1.6) * r); q = dbl(q); Poly P = circlePts(ctr, r, g); int l = locate(q, P, 2e-4L + 1e-4L * r + 3e-5L / dist(P[0], P[1])); if (l) CHECK(h.containsPoint(toP(q)) == (l > 0), "circular hole containment of " << show(q) << " is " << (l < 0)); }
            c.label("circular hole"); }
        else {
            double a0 = s.chance(50) ? s.range(-24, 24) * 15.0 : s.real(-400, 400), a1 = s.chance(50) ? s.range(-24, 24) * 15.0 : s.real(-400, 400); c.desc << " arc " << a0 << ".." << a1;
            std::vector<Point> p = delynoi_utilities::generateArcPoints(C, r, a0, a1); CHECK((int)p.size() == g + 1, "arc with grade " << g << " has " << p.size() << " points");
            for (int i = 0; i <= g; ++i) { R a = ((R)a0 + ((R)a1 - a0) * i / g) * M_PIl / 180; V w(ctr.x + r * cosl(a), ctr.y + r * sinl(a)); CHECK(dist(toV(p[i]), w) <= 10 * tol, "arc point " << i << " of " << g << " is " << show(toV(p[i])) << ", expected " << show(w)); }
            c.label("arc"); }
    }
}

// ---------------------------------------------------------------- P23
struct Cfg { int grade = 12; double tol = 1e-5; int scale = 100000; int prec = 6; };
static void checkGetters(const Cfg& m) {
    DelynoiConfig* d = DelynoiConfig::instance();
    CHECK(d->getDiscretizationGrade() == m.grade, "discretisation grade reads back as " << d->getDiscretizationGrade() << ", last set " << m.grade);
    CHECK(d->getTolerance() == m.tol, "tolerance reads back as " << d->getTolerance() << ", last set " << m.tol);
    CHECK(d->getScale() == m.scale, "clipping scale reads back as " << d->getScale() << ", last set " << m.scale);
    CHECK(d->getPrecision() == m.prec, "precision reads back as " << d->getPrecision() << ", last set " << m.prec);
}
static int decimals(const std::string& t) { size_t k = t.find('.'); return k == std::string::npos ? 0 : (int)(t.size() - k - 1); }
PROPERTY(P23, 300) {
    Src& s = c.s; Cfg m; DelynoiConfig* d = DelynoiConfig::instance(); int n = s.range(2, 20), sets = 0, uses = 0; checkGetters(m);
    const StartConfig& k0 = startConfig(); CHECK(k0.grade == 12 && k0.tol == 1e-5 && k0.scale == 100000 && k0.prec == 6, "before any change the configuration is grade " << k0.grade << ", tolerance " << k0.tol << ", scale " << k0.scale << ", precision " << k0.prec);
    struct Obj { CircularHole h; V ctr; double r; int grade; }; std::vector<Obj> objs; struct RegObj { Region r; Poly p; }; std::vector<RegObj> regs;
    for (int i = 0; i < n; ++i) {
        int op = s.range(0, 10);
        switch (op) {
        case 0: m.grade = s.chance(10) ? s.range(81, 2500) : s.range(3, 80); d->setDiscretizationGrade(m.grade); c.desc << " grade=" << m.grade; ++sets; break;
        case 1: m.tol = s.pick({1e-5, 1e-3, 1e-8, 0.01, 0.1, 1e-10}); d->setTolerance(m.tol); c.desc << " tol=" << m.tol; ++sets; break;
        case 2: m.scale = s.pick({100000, 1000, 10, 1, 100, 1000000, 50}); d->setScale(m.scale); c.desc << " scale=" << m.scale; ++sets; break;
        case 3: if (s.chance(50)) { m.prec = s.range(0, 16); d->setPrecision(m.prec); } else { int k = s.range(0, 2); Precision::precision p = k == 0 ? Precision::small : k == 1 ? Precision::mid : Precision::large; m.prec = k == 0 ? 6 : k == 1 ? 10 : 16; d->setPrecision(p); } c.desc << " prec=" << m.prec; ++sets; break;
        case 4: { // point equality: closeness of both coordinates
            V a(s.dyadic(-50, 50, 8), s.dyadic(-50, 50, 8)); double f = s.pick({0.0, 0.4, 0.8, 1.25, 3.0, 100.0}), g = s.pick({0.0, 0.4, 0.8, 1.25, 3.0, 100.0}); double dx = f * m.tol * (s.chance(50) ? 1 : -1), dy = g * m.tol * (s.chance(50) ? 1 : -1); if (m.tol < 1e-9) { dx = f > 1 ? dx * 10 : 0; dy = g > 1 ? dy * 10 : 0; }
            bool want = fabs(dx) < m.tol && fabs(dy) < m.tol; Point p = toP(a), q((double)a.x + dx, (double)a.y + dy); c.desc << " eq" << f << "," << g; CHECK((p == q) == want && (q == p) == want, "with tolerance " << m.tol << " points " << dx << "," << dy << " apart compare " << (want ? "different" : "equal")); ++uses; c.label("equality"); break; }
        case 5: { // collinearity: twice the area below the tolerance
            V a(s.range(-9, 9), s.range(-9, 9)); double L = s.range(1, 8), f = s.pick({0.0, 0.5, 2.0, 50.0}); double h = f * m.tol / L; bool want = f < 1; if (m.tol < 1e-9 && f > 0) { h = 1e-6; want = false; } bool vert = s.chance(50); V b = a + (vert ? V(0, L) : V(L, 0)), q = a + (vert ? V(h, L / 2) : V(L / 2, h)); c.desc << " col" << f;
            CHECK(geometry_functions::collinear(toP(a), toP(b), toP(q)) == want, "with tolerance " << m.tol << " points spanning twice the area " << h * L << " are reported " << (want ? "not " : "") << "collinear"); ++uses; c.label("collinear"); break; }
        case 6: { V ctr(s.range(-9, 9), s.range(-9, 9)); double r = s.range(1, 9); Obj o{CircularHole(toP(ctr), r), ctr, r, m.grade}; checkCircle(o.h.getPoints(), ctr, r, m.grade, "circular hole"); objs.push_back(o); c.desc << " hole"; ++uses; c.label("grade in use"); break; }
        case 7: { V ctr(s.range(-9, 9), s.range(-9, 9)); double r = s.range(1, 9); if (s.chance(50)) checkCircle(Circle(r, toP(ctr)).discretizeCircle(), ctr, r, m.grade, "circle"); else { size_t k = delynoi_utilities::generateArcPoints(toP(ctr), r, 0, 90).size(); CHECK((int)k == m.grade + 1, "arc has " << k << " points with grade " << m.grade); } c.desc << " circle"; ++uses; c.label("grade in use"); break; }
        case 8: { double v = s.real(-100, 100); Point p(v, -v); std::string t = p.getString(); std::istringstream is(t); std::string a, b, rest; is >> a >> b; CHECK(!(is >> rest) && !b.empty(), "a point prints as \"" << t << "\""); CHECK(decimals(a) == m.prec && decimals(b) == m.prec, "with precision " << m.prec << " a point prints as \"" << t << "\""); R half = 0.51L * powl(10, -m.prec) + 1e-13L; CHECK(fabsl(strtold(a.c_str(), 0) - (R)v) <= half && fabsl(strtold(b.c_str(), 0) + (R)v) <= half, "with precision " << m.prec << " the point " << v << " prints as \"" << t << "\""); c.desc << " print"; ++uses; c.label("precision in use"); break; }
        case 9: { // clipping resolution: an outline-crossing hole whose corner is off the clipping grid is rounded to it
            double keepTol = m.tol; if (keepTol > 1e-3) { d->setTolerance(1e-5); } 
            double W = 10; std::vector<Point> sq = {Point(0, 0), Point(W, 0), Point(W, W), Point(0, W)}; Region reg(sq); int inner = s.range(0, 3); for (int h = 0; h < inner; ++h) { std::vector<Point> ip = {Point(7, 1 + 3 * h), Point(8, 1 + 3 * h), Point(8, 2 + 3 * h), Point(7, 2 + 3 * h)}; PolygonalHole ih(ip); reg.addHole(ih); c.label("clipping beside holes"); if (s.chance(50)) { m.scale = s.pick({100000, 1000, 10, 1, 100, 1000000, 50}); d->setScale(m.scale); c.desc << " scale=" << m.scale; ++sets; } } double y0 = s.range(2, 4) + s.real01(), y1 = y0 + 2 + s.real01(), x1 = 3 + 2 * s.real01();
            std::vector<Point> hp = {Point(-1, y0), Point(x1, y0), Point(x1, y1), Point(-1, y1)}; PolygonalHole h(hp); reg.addHole(h); c.desc << " clip";
            std::vector<Point> rp = reg.getRegionPoints(); CHECK((int)rp.size() == 8 + 4 * inner, "an outline with a notch and " << inner << " holes has " << rp.size() << " vertices (scale " << m.scale << ")"); for (int h = 0; h < inner; ++h) CHECK(dist(toV(rp[8 + 4 * h]), V(7, 1 + 3 * h)) == 0, "hole " << h << " changed"); rp.resize(8); double sc = m.scale, res = 1.0 / sc; 
            std::vector<V> want = {V(0, y0), V(x1, y0), V(x1, y1), V(0, y1), V(0, 0), V(W, 0), V(W, W), V(0, W)};
            for (auto& p : rp) { V v = toV(p); bool ok = false; for (auto& w : want) if (fabsl(v.x - w.x) <= 1.01L * res && fabsl(v.y - w.y) <= 1.01L * res) ok = true; CHECK(ok, "after clipping with scale " << sc << " the outline has vertex " << show(v));
                CHECK(fabsl(v.x * sc - roundl(v.x * sc)) < 1e-4L && fabsl(v.y * sc - roundl(v.y * sc)) < 1e-4L, "after clipping with scale " << sc << " vertex " << show(v) << " is not on the clipping grid"); }
            d->setTolerance(m.tol); ++uses; c.label("scale in use"); break; }
        default: { Poly p = {V(0, 0), V(s.range(4, 9), 0), V(s.range(4, 9), 7), V(0, s.range(3, 7))}; double t = m.tol; if (t > 1e-3) d->setTolerance(1e-5); std::vector<Point> pp = toPts(p); regs.push_back({Region(pp), p}); d->setTolerance(t); c.desc << " region"; break; }
        }
        checkGetters(m);
        for (auto& o : objs) checkCircle(o.h.getPoints(), o.ctr, o.r, o.grade, "circular hole made earlier");
        for (auto& o : regs) { std::vector<Point> q = o.r.getRegionPoints(); CHECK(q.size() == o.p.size(), "a region made earlier changed"); for (size_t k = 0; k < q.size(); ++k) CHECK(toV(q[k]).x == o.p[k].x && toV(q[k]).y == o.p[k].y, "a region made earlier changed"); }
    }
    c.nontrivial = sets > 0 && uses > 0;
}

// ---------------------------------------------------------------- P25
static int refHash(int k) {
    uint32_t key = (uint32_t)k; auto sar = [](uint32_t v, int n) { return (uint32_t)((int32_t)v >> n); };
    key = (key ^ 61u) ^ sar(key, 16); key = key + (key << 3); key = key ^ sar(key, 4); key = key * 0x27d4eb2du; key = key ^ sar(key, 15); return (int)key;
}
PROPERTY(P25, 200) {
    Src& s = c.s; int n = s.range(1, 4);
    for (int it = 0; it < n; ++it) {
        int op = s.range(0, 13);
        switch (op) {
        case 0: { // splitting by whitespace
            std::string line; std::vector<std::string> want; int k = s.range(0, 7); auto ws = [&](int lo) { int m = s.range(lo, 3); for (int i = 0; i < m; ++i) line += s.pick({' ', '\t', '\r', '\n', ' '}); };
            ws(0); for (int i = 0; i < k; ++i) { std::string f; int L = s.range(1, 8); for (int j = 0; j < L; ++j) f += s.pick(std::vector<char>{'1', 'a', '-', '.', 'e', '+', '0', ',', ';', 'Z', '"', '*', '\\'}); want.push_back(f); line += f; if (i + 1 < k) ws(1); } ws(0);
            std::vector<std::string> g = utilities::splitBySpaces(line); c.desc << " split\"" << line << "\""; CHECK(g == want, "splitting \"" << line << "\" gives " << g.size() << " fields, it has " << want.size()); if (k > 1) c.nontrivial = true; c.label("split"); break; }
        case 1: { int p = s.range(0, 17); double v = s.chance(30) ? s.range(-100, 100) : s.chance(70) ? s.real(-1e4, 1e4) : s.real(-1, 1) * pow(10, s.range(-8, 9)); std::string g = utilities::toStringWithPrecision(v, p); char buf[400]; snprintf(buf, sizeof buf, "%.*f", p, v); c.desc << " print " << v << " " << p;
            CHECK(g == buf || (decimals(g) == p && fabsl(strtold(g.c_str(), 0) - (R)v) <= 0.5001L * powl(10, -p) + 1e-15L * fabs(v)), "toStringWithPrecision(" << v << "," << p << ") is \"" << g << "\""); if (p) CHECK(decimals(g) == p, "toStringWithPrecision(" << v << "," << p << ") is \"" << g << "\""); c.nontrivial = true; c.label("toStringWithPrecision"); break; }
        case 2: { int v = s.chance(30) ? s.pick({0, -1, 1, INT32_MAX, INT32_MIN, 999999, 1000000, 1234567}) : (int)s.raw(); std::string g = utilities::toString<int>(v); c.desc << " int " << v; CHECK(g == std::to_string(v), "toString(" << v << ") is \"" << g << "\""); std::string t = "w" + std::to_string(v); CHECK(utilities::toString<std::string>(t) == t, "toString of a string changed it"); c.nontrivial = true; c.label("toString"); break; }
        case 3: { std::vector<int> v; bool large = s.chance(8); int k = large ? s.range(13, 2500) : s.range(0, 12), m = large ? 5000 : s.range(1, 8); unsigned g0 = large ? s.raw() : 0; for (int i = 0; i < k; ++i) { g0 = g0 * 1664525u + 1013904223u; v.push_back(large ? (int)((g0 >> 8) % 5000) : s.range(0, m)); } int e = large && k && s.chance(80) ? v[s.range(0, k - 1)] : s.range(0, m + 1), w = -1; for (int i = k - 1; i >= 0; --i) if (v[i] == e) w = i; int g = utilities::indexOf(v, e); c.desc << " indexOf"; CHECK(g == w, "indexOf is " << g << ", the first position is " << w); std::vector<std::string> sv; for (int x : v) sv.push_back(std::to_string(x)); CHECK(utilities::indexOf(sv, std::to_string(e)) == w, "indexOf of strings is not " << w); if (k) c.nontrivial = true; c.label("indexOf"); break; }
        case 4: { double v = s.chance(20) ? 0.0 : s.real(-1, 1) * pow(10, s.range(-12, 6)); int w = v > 0 ? 1 : v < 0 ? -1 : 0; CHECK(utilities::sign(v) == w, "sign(" << v << ") is " << utilities::sign(v)); int i = s.range(-3, 3); CHECK(utilities::sign(i) == (i > 0) - (i < 0), "sign(" << i << ") is " << utilities::sign(i)); c.desc << " sign " << v; c.label("sign"); break; }
        case 5: { double a = s.chance(50) ? s.range(-72, 72) * 15.0 : s.real(-1000, 1000); R r = utilities::radian(a); CHECK(fabsl(r - (R)a * M_PIl / 180) <= 1e-12L * (1 + fabs(a)), "radian(" << a << ") is " << r);
            double t = s.chance(30) ? s.range(-5, 6) * M_PI / 6 : s.real(-M_PI, M_PI); R g = utilities::degrees(t), w = (t > 0 ? (R)t : 2 * M_PIl + t) * 180 / M_PIl; CHECK(fabsl(g - w) <= 1e-9L, "degrees(" << t << ") is " << g << ", expected " << w); 
            double b = s.real(0.01, 360); CHECK(fabsl((R)utilities::degrees(utilities::radian(b)) - b) <= 1e-9L, "degrees(radian(" << b << ")) is " << utilities::degrees(utilities::radian(b))); c.desc << " angle " << a << " " << t; c.nontrivial = true; c.label("angles"); break; }
        case 6: { double x = s.real(-1, 1) * pow(10, s.range(-6, 6)), y = s.chance(20) ? 0 : s.real(-1, 1) * pow(10, s.range(-6, 6)); if (x == 0 && y == 0) break; Pair<double> g = utilities::normalize(Pair<double>(x, y)); R L = sqrtl((R)x * x + (R)y * y); CHECK(fabsl(g.first - x / L) <= 1e-12L && fabsl(g.second - y / L) <= 1e-12L, "normalize(" << x << "," << y << ") is (" << g.first << "," << g.second << ")"); c.desc << " normalize " << x << "," << y; c.nontrivial = true; c.label("normalize"); break; }
        case 7: { int a = s.range(-3, 3), b = s.range(-3, 3), e = s.range(-3, 3), f = s.range(-3, 3); Pair<int> p(a, b), q(e, f); c.desc << " pairs (" << a << "," << b << ")(" << e << "," << f << ")";
            CHECK((p == q) == (a == e && b == f), "Pair == is wrong"); CHECK((p < q) == (a != e ? a < e : b < f), "Pair < is wrong"); CHECK(p.dot(q) == a * e + b * f, "Pair dot is " << p.dot(q)); Pair<int> u = p + q; CHECK(u.first == a + e && u.second == b + f, "Pair + is wrong"); Pair<int> k(p); CHECK(k == p && p.first == a && p.second == b, "Pair copy is wrong");
            double h = s.dyadic(-4, 4, 4); Pair<double> dp(a, b), dq = dp * h; CHECK(dq.first == a * h && dq.second == b * h, "Pair * is (" << dq.first << "," << dq.second << ")"); Pair<double> x(s.real(-1, 1), s.real(-1, 1)); CHECK(fabs(x.dot(dp) - (x.first * a + x.second * b)) < 1e-12, "Pair<double> dot is wrong"); c.nontrivial = true; c.label("pairs"); break; }
        case 8: { int k = s.chance(50) ? s.range(0, 100000) : (int)s.raw(); CHECK(utilities::hash32(k) == refHash(k), "hash32(" << k << ") is " << utilities::hash32(k) << ", expected " << refHash(k)); c.desc << " hash " << k; c.nontrivial = true; c.label("hash32"); break; }
        case 9: { std::vector<int> v; int pre = s.range(0, 3); for (int i = 0; i < pre; ++i) v.push_back(-i - 1); int k = s.range(0, 40); delynoi_utilities::TrivialIndexVector(v, k); CHECK((int)v.size() == pre + k, "TrivialIndexVector(" << k << ") appended " << (int)v.size() - pre); for (int i = 0; i < k; ++i) CHECK(v[pre + i] == i, "entry " << i << " is " << v[pre + i]); for (int i = 0; i < pre; ++i) CHECK(v[i] == -i - 1, "an existing entry was changed"); c.desc << " indices " << k; c.label("index vector"); if (k) c.nontrivial = true; break; }
        case 10: { int lo = s.range(-1000, 1000), hi = lo + s.range(0, s.pick({0, 1, 5, 100000})); std::set<int> got; for (int i = 0; i < 60; ++i) { int r = utilities::random_integer(lo, hi); CHECK(r >= lo && r <= hi, "random_integer(" << lo << "," << hi << ") gave " << r); got.insert(r); } if (hi > lo) CHECK(got.size() > 1, "random_integer(" << lo << "," << hi << ") gave the same number 60 times"); if (hi == lo + 1) CHECK(got.size() == 2, "random_integer leaves out a bound"); c.desc << " random " << lo << ".." << hi; c.nontrivial = true; c.label("random_integer"); break; }
        case 11: case 12: { // bounding boxes
            double x1 = s.dyadic(-20, 20, 4), y1 = s.dyadic(-20, 20, 4), x2 = s.dyadic(-20, 20, 4), y2 = s.dyadic(-20, 20, 4); if (s.chance(40)) { x1 += s.real01(); y2 -= s.real01(); } BoundingBox b(Point(x1, y1), Point(x2, y2)); c.desc << " box " << x1 << "," << y1 << "," << x2 << "," << y2;
            double w = fabs(x1 - x2), h = fabs(y1 - y2); CHECK(b.getWidth() == w && b.getHeight() == h, "box is " << b.getWidth() << " by " << b.getHeight()); CHECK(b.xMin() == std::min(x1, x2) && b.xMax() == std::max(x1, x2) && b.yMin() == std::min(y1, y2) && b.yMax() == std::max(y1, y2), "box extents are wrong");
            CHECK(b.getFirst().getX() == x1 && b.getFirst().getY() == y1 && b.getSecond().getX() == x2 && b.getSecond().getY() == y2, "box corners are wrong");
            BoundingBox same(Point(x1, y1), Point(x2, y2)), swp(Point(x2, y2), Point(x1, y1)); CHECK(b == same && b == swp, "equal boxes compare different"); double off = s.pick({0.5, -1.0, 7.0}); int which = s.range(0, 3); BoundingBox oth(Point(x1 + (which == 0) * off, y1 + (which == 1) * off), Point(x2 + (which == 2) * off, y2 + (which == 3) * off));
            // another box with these corners in the other diagonal order would be the same one: exclude
            bool eq = (oth.getFirst() == b.getSecond() && oth.getSecond() == b.getFirst()); if (!eq) CHECK(!(b == oth), "different boxes compare equal");
            std::vector<PointSegment> ss; b.getSegments(ss); CHECK(ss.size() == 4, "box has " << ss.size() << " segments"); std::multiset<std::pair<std::pair<double, double>, std::pair<double, double>>> got, want; auto add = [](std::multiset<std::pair<std::pair<double, double>, std::pair<double, double>>>& m, double a, double bb, double cc, double dd) { auto p = std::make_pair(a, bb), q = std::make_pair(cc, dd); if (q < p) std::swap(p, q); m.insert({p, q}); };
            for (auto& g : ss) add(got, g.getFirst().getX(), g.getFirst().getY(), g.getSecond().getX(), g.getSecond().getY()); add(want, x1, y1, x2, y1); add(want, x2, y1, x2, y2); add(want, x2, y2, x1, y2); add(want, x1, y2, x1, y1); CHECK(got == want, "box segments are not its four sides");
            for (int i = 0; i < 5; ++i) { double px = s.dyadic(-22, 22, 4), py = s.dyadic(-22, 22, 4); if (s.chance(30)) px = s.chance(50) ? x1 : x2; if (s.chance(30)) py = s.chance(50) ? y1 : y2; bool in = px >= std::min(x1, x2) && px <= std::max(x1, x2) && py >= std::min(y1, y2) && py <= std::max(y1, y2); CHECK(b.contains(Point(px, py)) == in, "box containment of (" << px << "," << py << ") is " << !in); }
            if (w > 0 && h > 0) c.nontrivial = true; c.label("bounding box"); break; }
        default: { // vector helpers on points
            V a(s.real(-50, 50), s.real(-50, 50)), b(s.real(-50, 50), s.real(-50, 50)), e(s.real(-50, 50), s.real(-50, 50)); if (s.chance(40)) { a = quant(a, 1); b = quant(b, 1); e = quant(e, 1); } a = dbl(a); b = dbl(b); e = dbl(e); c.desc << " vectors " << show(a) << show(b) << show(e);
            CHECK(fabsl(delynoi_utilities::crossProduct(toP(a), toP(b)) - cross(a, b)) < 1e-9L, "cross product is wrong"); CHECK(fabsl(delynoi_utilities::squareNorm(toP(a)) - dot(a, a)) < 1e-9L, "square norm is wrong"); CHECK(fabsl(delynoi_utilities::norm(toP(a)) - len(a)) < 1e-9L, "norm is wrong"); CHECK(fabsl(delynoi_utilities::orientation(toP(a), toP(b), toP(e)) - orient(a, b, e)) < 1e-8L, "orientation is wrong");
            CHECK(fabsl(geometry_functions::area2(toP(a), toP(b), toP(e)) - orient(a, b, e)) < 1e-8L && fabsl(geometry_functions::triangleArea(toP(a), toP(b), toP(e)) - orient(a, b, e) / 2) < 1e-8L, "triangle area is wrong");
            Poly P; int k = s.range(3, 9); for (int i = 0; i < k; ++i) P.push_back(dbl(V(s.real(-50, 50), s.real(-50, 50)))); std::vector<Point> pp = toPts(P); CHECK(fabsl(geometry_functions::area(pp) - sarea(P)) < 1e-8L, "area(points) is " << geometry_functions::area(pp) << ", expected " << sarea(P));
            std::vector<int> idx; Poly Q; for (int i = 0; i < k; ++i) { idx.push_back(s.range(0, k - 1)); Q.push_back(P[idx.back()]); } CHECK(fabsl(geometry_functions::area(pp, idx) - sarea(Q)) < 1e-8L, "area(points, index) is wrong"); c.nontrivial = true; c.label("vector helpers"); break; }
        }
    }
}
