// Independent geometry used as oracle (long double, no code shared with the library).
#pragma once
#include <vector>
#include <cmath>
#include <algorithm>
#include <string>
#include <sstream>
#include <iomanip>
typedef long double R;
struct V { R x, y; V(R a = 0, R b = 0) : x(a), y(b) {} };
inline V operator+(V a, V b) { return V(a.x + b.x, a.y + b.y); }
inline V operator-(V a, V b) { return V(a.x - b.x, a.y - b.y); }
inline V operator*(V a, R k) { return V(a.x * k, a.y * k); }
inline R cross(V a, V b) { return a.x * b.y - a.y * b.x; }
inline R dot(V a, V b) { return a.x * b.x + a.y * b.y; }
inline R len(V a) { return sqrtl(dot(a, a)); }
inline R dist(V a, V b) { return len(a - b); }
inline R orient(V a, V b, V c) { return cross(b - a, c - a); }
typedef std::vector<V> Poly;

inline R area2(const Poly& p) { R s = 0; size_t n = p.size(); for (size_t i = 0; i < n; ++i) s += cross(p[i] - p[0], p[(i + 1) % n] - p[0]); return s; }
inline R sarea(const Poly& p) { return area2(p) / 2; }
inline R parea(const Poly& p) { return fabsl(sarea(p)); }
inline R perimeter(const Poly& p) { R s = 0; for (size_t i = 0; i < p.size(); ++i) s += dist(p[i], p[(i + 1) % p.size()]); return s; }
inline V centroid(const Poly& p) {
    R A = 0, cx = 0, cy = 0; size_t n = p.size(); V o = p[0];
    for (size_t i = 0; i < n; ++i) { V a = p[i] - o, b = p[(i + 1) % n] - o; R w = cross(a, b); A += w; cx += (a.x + b.x) * w; cy += (a.y + b.y) * w; }
    return V(o.x + cx / (3 * A), o.y + cy / (3 * A));
}
inline R distPS(V p, V a, V b) {
    V d = b - a; R L = dot(d, d); if (L == 0) return dist(p, a);
    R t = dot(p - a, d) / L; t = t < 0 ? 0 : t > 1 ? 1 : t;
    return dist(p, a + d * t);
}
// proper crossing of open segments (strict)
inline bool crossProper(V a, V b, V c, V d) {
    R o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
    return ((o1 > 0) != (o2 > 0)) && ((o3 > 0) != (o4 > 0)) && o1 != 0 && o2 != 0 && o3 != 0 && o4 != 0;
}
// crossing by more than eps on every side
inline bool crossDeep(V a, V b, V c, V d, R eps) {
    R l1 = dist(a, b), l2 = dist(c, d); if (l1 == 0 || l2 == 0) return false;
    R o1 = orient(a, b, c) / l1, o2 = orient(a, b, d) / l1, o3 = orient(c, d, a) / l2, o4 = orient(c, d, b) / l2;
    return ((o1 > eps && o2 < -eps) || (o1 < -eps && o2 > eps)) && ((o3 > eps && o4 < -eps) || (o3 < -eps && o4 > eps));
}
inline R segSeg(V a, V b, V c, V d) {
    if (crossProper(a, b, c, d)) return 0;
    return std::min(std::min(distPS(a, c, d), distPS(b, c, d)), std::min(distPS(c, a, b), distPS(d, a, b)));
}
inline R distToBoundary(V q, const Poly& p) { R m = 1e30L; for (size_t i = 0; i < p.size(); ++i) m = std::min(m, distPS(q, p[i], p[(i + 1) % p.size()])); return m; }
// even-odd, meaningful when q is not on the boundary
inline bool insideRaw(V q, const Poly& p) {
    bool in = false; size_t n = p.size();
    for (size_t i = 0, j = n - 1; i < n; j = i++) {
        if ((p[i].y > q.y) != (p[j].y > q.y)) {
            R o = orient(p[j], p[i], q);
            if ((p[i].y > p[j].y) ? o > 0 : o < 0) in = !in;
        }
    }
    return in;
}
// +1 inside by more than eps, -1 outside by more than eps, 0 within eps of the boundary
inline int locate(V q, const Poly& p, R eps) { if (distToBoundary(q, p) <= eps) return 0; return insideRaw(q, p) ? 1 : -1; }

// smallest distance between non-adjacent parts, edge lengths included: "feature size"
inline R featureSize(const Poly& p) {
    size_t n = p.size(); R m = 1e30L;
    for (size_t i = 0; i < n; ++i) {
        m = std::min(m, dist(p[i], p[(i + 1) % n]));
        for (size_t j = i + 1; j < n; ++j) {
            if (j == i || (j + 1) % n == i || (i + 1) % n == j) continue;
            m = std::min(m, segSeg(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]));
        }
    }
    return m;
}
inline R minAngle(const Poly& p) { // degrees, unsigned angle between the two edges at a vertex (180 = flat)
    size_t n = p.size(); R m = 1e30L;
    for (size_t i = 0; i < n; ++i) {
        V a = p[(i + n - 1) % n] - p[i], b = p[(i + 1) % n] - p[i];
        m = std::min(m, fabsl(atan2l(cross(a, b), dot(a, b))) * 180 / M_PIl);
    }
    return m;
}
inline bool isSimple(const Poly& p) { return p.size() >= 3 && featureSize(p) > 0; }
inline R polyDist(const Poly& a, const Poly& b) {
    R m = 1e30L;
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) m = std::min(m, segSeg(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()]));
    return m;
}
// area of (poly ∩ triangle/convex CCW clip) by Sutherland-Hodgman (area correct also for non-convex subject)
inline R clipArea(Poly s, Poly c) {
    if (sarea(c) < 0) std::reverse(c.begin(), c.end());
    if (sarea(s) < 0) std::reverse(s.begin(), s.end());
    for (size_t i = 0; i < c.size() && s.size() >= 3; ++i) {
        V a = c[i], b = c[(i + 1) % c.size()]; Poly o;
        for (size_t k = 0; k < s.size(); ++k) {
            V p = s[k], q = s[(k + 1) % s.size()]; R op = orient(a, b, p), oq = orient(a, b, q);
            if (op >= 0) o.push_back(p);
            if ((op > 0 && oq < 0) || (op < 0 && oq > 0)) { R t = op / (op - oq); o.push_back(p + (q - p) * t); }
        }
        s = o;
    }
    return s.size() >= 3 ? sarea(s) : 0;
}
inline R angleAt(V p, V a, V b) { V u = a - p, v = b - p; return fabsl(atan2l(cross(u, v), dot(u, v))); }
inline std::string show(V v) { std::ostringstream o; o << std::setprecision(17) << "(" << v.x << "," << v.y << ")"; return o.str(); }
inline std::string show(const Poly& p) { std::ostringstream o; o << "["; for (auto& v : p) o << show(v); o << "]"; return o.str(); }
