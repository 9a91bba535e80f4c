// Reference geometry in extended precision, written from definitions.
#pragma once

#include "refmesh.h"

namespace ref {

typedef long double LD;

struct L3 {
    LD x = 0, y = 0, z = 0;
    L3() {}
    L3(LD a, LD b, LD c) : x(a), y(b), z(c) {}
    explicit L3(const V3 &v) : x(v.x), y(v.y), z(v.z) {}
};
inline L3 operator+(const L3 &a, const L3 &b) { return L3(a.x + b.x, a.y + b.y, a.z + b.z); }
inline L3 operator-(const L3 &a, const L3 &b) { return L3(a.x - b.x, a.y - b.y, a.z - b.z); }
inline L3 operator*(const L3 &a, LD s) { return L3(a.x * s, a.y * s, a.z * s); }
inline LD dot(const L3 &a, const L3 &b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline L3 cross(const L3 &a, const L3 &b) {
    return L3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x);
}
inline LD norm(const L3 &a) { return sqrtl(dot(a, a)); }

inline LD segmentDistance(const L3 &p, const L3 &a, const L3 &b) {
    const L3 d = b - a;
    const LD dd = dot(d, d);
    LD t = dd > 0 ? dot(p - a, d) / dd : 0;
    t = t < 0 ? 0 : (t > 1 ? 1 : t);
    return norm(p - (a + d * t));
}

// Distance of a point to a triangle: the smallest of the distances to the three sides and, if the foot of the
// perpendicular lies inside, to the plane.
inline LD triangleDistance(const V3 &q, const V3 &a, const V3 &b, const V3 &c) {
    const L3 p(q), A(a), B(b), C(c);
    LD d = std::min(segmentDistance(p, A, B), std::min(segmentDistance(p, B, C), segmentDistance(p, C, A)));
    const L3 n = cross(B - A, C - A);
    const LD nn = dot(n, n);
    if (nn > 0) {
        const LD h = dot(p - A, n);
        const L3 f = p - n * (h / nn);
        if (dot(cross(B - A, f - A), n) >= 0 && dot(cross(C - B, f - B), n) >= 0 && dot(cross(A - C, f - C), n) >= 0) {
            d = std::min(d, fabsl(h) / sqrtl(nn));
        }
    }
    return d;
}

// How far a triangle is from being degenerate: longest side squared over twice the area.
inline double triangleCondition(const V3 &a, const V3 &b, const V3 &c) {
    const double l = std::max(norm(b - a), std::max(norm(c - b), norm(a - c)));
    const double n = norm(cross(b - a, c - a));
    return n > 0 ? l * l / n : 1e300;
}

inline LD surfaceDistance(const V3 &q, const Surf &s) {
    LD d = 1e300L;
    for (const Tri &f : s.F) {
        d = std::min(d, triangleDistance(q, s.P[(size_t)f[0]], s.P[(size_t)f[1]], s.P[(size_t)f[2]]));
    }
    return d;
}

inline V3 randomDirection(Gen &g) {
    for (;;) {
        V3 v(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1));
        const double n = norm(v);
        if (n < 1e-3) return V3(1, 0, 0);
        return v / n;
    }
}

}  // namespace ref
