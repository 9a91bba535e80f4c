// Independent indexed-triangle model of an oriented surface: generation, editing, topology, measurement.
// Nothing here uses tinymesh code.
#pragma once

#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "pbt.h"

namespace ref {

using pbt::Case;
using pbt::Discard;
using pbt::Gen;
using pbt::Noise;

struct V3 {
    double x = 0, y = 0, z = 0;
    V3() {}
    V3(double a, double b, double c) : x(a), y(b), z(c) {}
    double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
    bool operator==(const V3 &o) const { return x == o.x && y == o.y && z == o.z; }
    bool operator!=(const V3 &o) const { return !(*this == o); }
    bool operator<(const V3 &o) const { return x != o.x ? x < o.x : y != o.y ? y < o.y : z < o.z; }
};
inline V3 operator+(const V3 &a, const V3 &b) { return V3(a.x + b.x, a.y + b.y, a.z + b.z); }
inline V3 operator-(const V3 &a, const V3 &b) { return V3(a.x - b.x, a.y - b.y, a.z - b.z); }
inline V3 operator*(const V3 &a, double s) { return V3(a.x * s, a.y * s, a.z * s); }
inline V3 operator*(double s, const V3 &a) { return a * s; }
inline V3 operator/(const V3 &a, double s) { return V3(a.x / s, a.y / s, a.z / s); }
inline V3 operator-(const V3 &a) { return V3(-a.x, -a.y, -a.z); }
inline V3 &operator+=(V3 &a, const V3 &b) { return a = a + b; }
inline double dot(const V3 &a, const V3 &b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(const V3 &a, const V3 &b) {
    return V3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x);
}
inline double norm(const V3 &a) { return std::sqrt(dot(a, a)); }
inline V3 unit(const V3 &a) { return a / norm(a); }
inline double angleAt(const V3 &p, const V3 &a, const V3 &b) {
    return std::atan2(norm(cross(a - p, b - p)), dot(a - p, b - p));
}
inline bool finite(const V3 &a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }

typedef std::array<int, 3> Tri;
typedef std::array<V3, 3> Tri3;

struct Mat3 {
    double m[3][3];
    V3 operator*(const V3 &v) const {
        return V3(m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z, m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z,
                  m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z);
    }
};
inline Mat3 rotation(const V3 &axis, double t) {
    const V3 u = unit(axis);
    const double c = std::cos(t), s = std::sin(t), d = 1 - c;
    Mat3 r = { { { c + u.x * u.x * d, u.x * u.y * d - u.z * s, u.x * u.z * d + u.y * s },
                 { u.y * u.x * d + u.z * s, c + u.y * u.y * d, u.y * u.z * d - u.x * s },
                 { u.z * u.x * d - u.y * s, u.z * u.y * d + u.x * s, c + u.z * u.z * d } } };
    return r;
}

struct Surf {
    std::vector<V3> P;
    std::vector<Tri> F;

    V3 p(int f, int k) const { return P[(size_t)F[(size_t)f][(size_t)k]]; }
    double area(int f) const { return 0.5 * norm(cross(p(f, 1) - p(f, 0), p(f, 2) - p(f, 0))); }
    double totalArea() const {
        double a = 0;
        for (size_t i = 0; i < F.size(); i++) a += area((int)i);
        return a;
    }
    double minAngle() const {
        double a = 10;
        for (size_t i = 0; i < F.size(); i++) {
            for (int k = 0; k < 3; k++) a = std::min(a, angleAt(p((int)i, k), p((int)i, (k + 1) % 3), p((int)i, (k + 2) % 3)));
        }
        return a;
    }
    double maxAngle() const {
        double a = 0;
        for (size_t i = 0; i < F.size(); i++) {
            for (int k = 0; k < 3; k++) a = std::max(a, angleAt(p((int)i, k), p((int)i, (k + 1) % 3), p((int)i, (k + 2) % 3)));
        }
        return a;
    }
    double diameter() const {
        V3 lo = P[0], hi = P[0];
        for (const V3 &q : P) {
            lo = V3(std::min(lo.x, q.x), std::min(lo.y, q.y), std::min(lo.z, q.z));
            hi = V3(std::max(hi.x, q.x), std::max(hi.y, q.y), std::max(hi.z, q.z));
        }
        return norm(hi - lo);
    }
};

typedef std::pair<int, int> Edge;

struct Topo {
    bool ok = false;  // every directed edge once, every vertex a single fan, every vertex used
    std::string why;
    std::map<Edge, int> face;             // directed edge -> triangle
    std::vector<std::vector<int>> loops;  // boundary loops as sequences of vertices in hole orientation
    int V = 0, E = 0, F = 0, components = 0;
    int euler() const { return V - E + F; }
    bool closed() const { return ok && loops.empty(); }
};

inline Topo topology(const Surf &s) {
    Topo t;
    t.V = (int)s.P.size();
    t.F = (int)s.F.size();
    for (size_t i = 0; i < s.F.size(); i++) {
        const Tri &f = s.F[i];
        for (int k = 0; k < 3; k++) {
            const int a = f[(size_t)k], b = f[(size_t)(k + 1) % 3];
            if (a < 0 || a >= t.V || a == b) {
                t.why = "degenerate triangle";
                return t;
            }
            if (!t.face.insert({ Edge(a, b), (int)i }).second) {
                t.why = "directed edge used twice";
                return t;
            }
        }
    }
    // Edges and boundary successor
    std::map<int, std::vector<int>> out;  // boundary: hole-oriented edges b->a for each a->b without opposite
    for (const auto &e : t.face) {
        const bool twin = t.face.count(Edge(e.first.second, e.first.first)) != 0;
        if (!twin || e.first.first < e.first.second) t.E++;
        if (!twin) out[e.first.second].push_back(e.first.first);
    }
    // Vertex fans
    std::vector<std::vector<int>> inc((size_t)t.V);
    for (size_t i = 0; i < s.F.size(); i++) {
        for (int v : s.F[i]) inc[(size_t)v].push_back((int)i);
    }
    for (int v = 0; v < t.V; v++) {
        if (inc[(size_t)v].empty()) {
            t.why = "unused vertex";
            return t;
        }
        if (out.count(v) && out[v].size() > 1) {
            t.why = "pinched boundary vertex";
            return t;
        }
        // Walk the fan from one triangle in both directions
        std::set<int> seen;
        std::vector<int> todo = { inc[(size_t)v][0] };
        while (!todo.empty()) {
            const int f = todo.back();
            todo.pop_back();
            if (!seen.insert(f).second) continue;
            int k = 0;
            while (s.F[(size_t)f][(size_t)k] != v) k++;
            const int a = s.F[(size_t)f][(size_t)(k + 1) % 3], b = s.F[(size_t)f][(size_t)(k + 2) % 3];
            auto i1 = t.face.find(Edge(a, v)), i2 = t.face.find(Edge(v, b));
            if (i1 != t.face.end()) todo.push_back(i1->second);
            if (i2 != t.face.end()) todo.push_back(i2->second);
        }
        if (seen.size() != inc[(size_t)v].size()) {
            t.why = "pinched vertex";
            return t;
        }
    }
    // Boundary loops
    std::set<int> done;
    for (const auto &o : out) {
        if (done.count(o.first)) continue;
        std::vector<int> loop;
        int v = o.first;
        while (!done.count(v)) {
            done.insert(v);
            loop.push_back(v);
            v = out[v][0];
        }
        t.loops.push_back(loop);
    }
    // Components
    std::vector<int> parent((size_t)t.V);
    for (int i = 0; i < t.V; i++) parent[(size_t)i] = i;
    std::function<int(int)> root = [&](int a) {
        while (parent[(size_t)a] != a) a = parent[(size_t)a] = parent[(size_t)parent[(size_t)a]];
        return a;
    };
    for (const Tri &f : s.F) {
        parent[(size_t)root(f[0])] = root(f[1]);
        parent[(size_t)root(f[1])] = root(f[2]);
    }
    for (int i = 0; i < t.V; i++) t.components += root(i) == i;
    t.ok = true;
    return t;
}

// ---------------------------------------------------------------------------------------------------------------
// Comparison by geometry: the multiset of oriented triangles given by corner positions.

inline Tri3 canon(Tri3 t) {
    int k = 0;
    for (int i = 1; i < 3; i++) {
        if (t[(size_t)i] < t[(size_t)k]) k = i;
    }
    return Tri3{ t[(size_t)k], t[(size_t)(k + 1) % 3], t[(size_t)(k + 2) % 3] };
}
inline std::vector<Tri3> triangleSet(const Surf &s) {
    std::vector<Tri3> r;
    for (const Tri &f : s.F) r.push_back(canon(Tri3{ s.P[(size_t)f[0]], s.P[(size_t)f[1]], s.P[(size_t)f[2]] }));
    std::sort(r.begin(), r.end());
    return r;
}
inline Tri canonIdx(Tri t) {
    int k = 0;
    for (int i = 1; i < 3; i++) {
        if (t[(size_t)i] < t[(size_t)k]) k = i;
    }
    return Tri{ t[(size_t)k], t[(size_t)(k + 1) % 3], t[(size_t)(k + 2) % 3] };
}
inline std::vector<Tri> indexSet(const Surf &s) {
    std::vector<Tri> r;
    for (const Tri &f : s.F) r.push_back(canonIdx(f));
    std::sort(r.begin(), r.end());
    return r;
}

// ---------------------------------------------------------------------------------------------------------------
// Primitive surfaces

inline Surf tetrahedron() {
    Surf s;
    s.P = { V3(1, 1, 1), V3(1, -1, -1), V3(-1, 1, -1), V3(-1, -1, 1) };
    s.F = { { 0, 1, 2 }, { 0, 3, 1 }, { 0, 2, 3 }, { 1, 3, 2 } };
    return s;
}
inline Surf bipyramid(int n) {
    Surf s;
    for (int i = 0; i < n; i++) s.P.push_back(V3(std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), 0));
    s.P.push_back(V3(0, 0, 1));
    s.P.push_back(V3(0, 0, -1));
    for (int i = 0; i < n; i++) {
        s.F.push_back({ i, (i + 1) % n, n });
        s.F.push_back({ (i + 1) % n, i, n + 1 });
    }
    return s;
}
inline Surf icosahedron() {
    const double t = (1 + std::sqrt(5.0)) / 2;
    Surf s;
    s.P = { V3(-1, t, 0), V3(1, t, 0),  V3(-1, -t, 0), V3(1, -t, 0), V3(0, -1, t),  V3(0, 1, t),
            V3(0, -1, -t), V3(0, 1, -t), V3(t, 0, -1),  V3(t, 0, 1),  V3(-t, 0, -1), V3(-t, 0, 1) };
    s.F = { { 0, 11, 5 }, { 0, 5, 1 },  { 0, 1, 7 },   { 0, 7, 10 }, { 0, 10, 11 }, { 1, 5, 9 }, { 5, 11, 4 },
            { 11, 10, 2 }, { 10, 7, 6 }, { 7, 1, 8 },   { 3, 9, 4 },  { 3, 4, 2 },   { 3, 2, 6 }, { 3, 6, 8 },
            { 3, 8, 9 },  { 4, 9, 5 },  { 2, 4, 11 },  { 6, 2, 10 }, { 8, 6, 7 },   { 9, 8, 1 } };
    for (V3 &p : s.P) p = unit(p);
    return s;
}
inline Surf subdivide(const Surf &s, bool toSphere) {
    Surf r;
    r.P = s.P;
    std::map<Edge, int> mid;
    auto m = [&](int a, int b) {
        Edge e(std::min(a, b), std::max(a, b));
        auto it = mid.find(e);
        if (it != mid.end()) return it->second;
        V3 q = (s.P[(size_t)a] + s.P[(size_t)b]) * 0.5;
        if (toSphere) q = unit(q);
        r.P.push_back(q);
        return mid[e] = (int)r.P.size() - 1;
    };
    for (const Tri &f : s.F) {
        const int a = m(f[0], f[1]), b = m(f[1], f[2]), c = m(f[2], f[0]);
        r.F.push_back({ f[0], a, c });
        r.F.push_back({ f[1], b, a });
        r.F.push_back({ f[2], c, b });
        r.F.push_back({ a, b, c });
    }
    return r;
}
// Surface of revolution grid: nu around, nv along; wrap flags close it.
inline Surf gridSurface(int nu, int nv, bool wrapU, bool wrapV, const std::function<V3(double, double)> &f, unsigned diag) {
    Surf s;
    const int cu = wrapU ? nu : nu + 1, cv = wrapV ? nv : nv + 1;
    for (int j = 0; j < cv; j++) {
        for (int i = 0; i < cu; i++) s.P.push_back(f((double)i / nu, (double)j / nv));
    }
    auto id = [&](int i, int j) { return (j % cv) * cu + (i % cu); };
    for (int j = 0; j < nv; j++) {
        for (int i = 0; i < nu; i++) {
            const int a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
            const bool flip = diag == 0 ? false : diag == 1 ? ((i + j) & 1) : (pbt::mix64(diag * 7919u + (unsigned)(i * 131 + j)) & 1);
            if (!flip) {
                s.F.push_back({ a, b, c });
                s.F.push_back({ a, c, d });
            } else {
                s.F.push_back({ a, b, d });
                s.F.push_back({ b, c, d });
            }
        }
    }
    return s;
}
inline Surf planeGrid(int nu, int nv, unsigned diag) {
    return gridSurface(nu, nv, false, false, [&](double u, double v) { return V3(u * nu, v * nv, 0); }, diag);
}
inline Surf tube(int nu, int nv, unsigned diag) {
    return gridSurface(nu, nv, true, false,
                       [&](double u, double v) { return V3(std::cos(2 * M_PI * u), std::sin(2 * M_PI * u), v * 2); }, diag);
}
inline Surf torus(int nu, int nv, double r, unsigned diag) {
    return gridSurface(nu, nv, true, true,
                       [&](double u, double v) {
                           const double a = 2 * M_PI * u, b = 2 * M_PI * v;
                           return V3((1 + r * std::cos(b)) * std::cos(a), (1 + r * std::cos(b)) * std::sin(a), r * std::sin(b));
                       },
                       diag);
}
inline Surf disc(int n) {
    Surf s;
    s.P.push_back(V3(0, 0, 0));
    for (int i = 0; i < n; i++) s.P.push_back(V3(std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), 0));
    for (int i = 0; i < n; i++) s.F.push_back({ 0, 1 + i, 1 + (i + 1) % n });
    return s;
}
inline Surf cube(int n) {
    // Subdivided cube with merged vertices
    Surf s;
    std::map<std::array<int, 3>, int> ids;
    auto vid = [&](int x, int y, int z) {
        std::array<int, 3> k = { x, y, z };
        auto it = ids.find(k);
        if (it != ids.end()) return it->second;
        s.P.push_back(V3(2.0 * x / n - 1, 2.0 * y / n - 1, 2.0 * z / n - 1));
        return ids[k] = (int)s.P.size() - 1;
    };
    auto quad = [&](int a, int b, int c, int d) {
        s.F.push_back({ a, b, c });
        s.F.push_back({ a, c, d });
    };
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < n; j++) {
            quad(vid(i, j, n), vid(i + 1, j, n), vid(i + 1, j + 1, n), vid(i, j + 1, n));
            quad(vid(i, j, 0), vid(i, j + 1, 0), vid(i + 1, j + 1, 0), vid(i + 1, j, 0));
            quad(vid(n, i, j), vid(n, i + 1, j), vid(n, i + 1, j + 1), vid(n, i, j + 1));
            quad(vid(0, i, j), vid(0, i, j + 1), vid(0, i + 1, j + 1), vid(0, i + 1, j));
            quad(vid(i, n, j), vid(i, n, j + 1), vid(i + 1, n, j + 1), vid(i + 1, n, j));
            quad(vid(i, 0, j), vid(i + 1, 0, j), vid(i + 1, 0, j + 1), vid(i, 0, j + 1));
        }
    }
    return s;
}

inline void append(Surf &s, const Surf &o, const V3 &shift) {
    const int n = (int)s.P.size();
    for (const V3 &p : o.P) s.P.push_back(p + shift);
    for (const Tri &f : o.F) s.F.push_back({ f[0] + n, f[1] + n, f[2] + n });
}

// ---------------------------------------------------------------------------------------------------------------
// Edits

inline bool hasEdge(const std::map<Edge, int> &m, int a, int b) { return m.count(Edge(a, b)) || m.count(Edge(b, a)); }

inline std::map<Edge, int> edgeMap(const Surf &s) {
    std::map<Edge, int> m;
    for (size_t i = 0; i < s.F.size(); i++) {
        for (int k = 0; k < 3; k++) m[Edge(s.F[i][(size_t)k], s.F[i][(size_t)(k + 1) % 3])] = (int)i;
    }
    return m;
}
inline int other(const Tri &f, int a, int b) {
    for (int v : f) {
        if (v != a && v != b) return v;
    }
    return -1;
}
inline void splitFace(Surf &s, int f, double lift) {
    const Tri t = s.F[(size_t)f];
    const V3 c = (s.P[(size_t)t[0]] + s.P[(size_t)t[1]] + s.P[(size_t)t[2]]) / 3.0;
    const V3 n = cross(s.P[(size_t)t[1]] - s.P[(size_t)t[0]], s.P[(size_t)t[2]] - s.P[(size_t)t[0]]);
    const double l = norm(n);
    s.P.push_back(l > 0 ? c + n * (lift / std::sqrt(l)) : c);
    const int v = (int)s.P.size() - 1;
    s.F[(size_t)f] = { t[0], t[1], v };
    s.F.push_back({ t[1], t[2], v });
    s.F.push_back({ t[2], t[0], v });
}
inline void splitEdge(Surf &s, int f, int k, double t) {
    const int a = s.F[(size_t)f][(size_t)k], b = s.F[(size_t)f][(size_t)(k + 1) % 3], c = s.F[(size_t)f][(size_t)(k + 2) % 3];
    int g = -1;
    for (size_t i = 0; i < s.F.size(); i++) {
        for (int j = 0; j < 3; j++) {
            if (s.F[i][(size_t)j] == b && s.F[i][(size_t)(j + 1) % 3] == a) g = (int)i;
        }
    }
    s.P.push_back(s.P[(size_t)a] * (1 - t) + s.P[(size_t)b] * t);
    const int v = (int)s.P.size() - 1;
    s.F[(size_t)f] = { a, v, c };
    s.F.push_back({ v, b, c });
    if (g >= 0) {
        const int d = other(s.F[(size_t)g], a, b);
        s.F[(size_t)g] = { b, v, d };
        s.F.push_back({ v, a, d });
    }
}
inline bool flipEdge(Surf &s, int f, int k) {
    const int a = s.F[(size_t)f][(size_t)k], b = s.F[(size_t)f][(size_t)(k + 1) % 3], c = s.F[(size_t)f][(size_t)(k + 2) % 3];
    auto m = edgeMap(s);
    auto it = m.find(Edge(b, a));
    if (it == m.end()) return false;
    const int g = it->second, d = other(s.F[(size_t)g], a, b);
    if (c == d || hasEdge(m, c, d)) return false;
    int da = 0, db = 0;
    for (const Tri &t : s.F) {
        for (int v : t) {
            da += v == a;
            db += v == b;
        }
    }
    if (da <= 3 || db <= 3) return false;
    s.F[(size_t)f] = { c, a, d };
    s.F[(size_t)g] = { d, b, c };
    return true;
}
// Removes faces; drops unused vertices; returns false (unchanged) if the rest is not a manifold.
inline bool removeFaces(Surf &s, const std::set<int> &dead) {
    Surf r;
    std::vector<int> id(s.P.size(), -1);
    for (size_t i = 0; i < s.F.size(); i++) {
        if (dead.count((int)i)) continue;
        Tri t;
        for (int k = 0; k < 3; k++) {
            int v = s.F[i][(size_t)k];
            if (id[(size_t)v] < 0) {
                id[(size_t)v] = (int)r.P.size();
                r.P.push_back(s.P[(size_t)v]);
            }
            t[(size_t)k] = id[(size_t)v];
        }
        r.F.push_back(t);
    }
    if (r.F.empty() || !topology(r).ok) return false;
    s = r;
    return true;
}
// Joins triangles f and g (disjoint vertices) by a triangular tube: raises the genus or joins components.
inline bool joinFaces(Surf &s, int f, int g) {
    if (f == g) return false;
    const Tri a = s.F[(size_t)f], b = s.F[(size_t)g];
    auto m = edgeMap(s);
    for (int x : a) {
        for (int y : b) {
            if (x == y || hasEdge(m, x, y)) return false;
        }
    }
    Surf r = s;
    std::vector<Tri> nf;
    for (size_t i = 0; i < s.F.size(); i++) {
        if ((int)i != f && (int)i != g) nf.push_back(s.F[i]);
    }
    // b is traversed backwards so that orientations match
    const int c[3] = { b[0], b[2], b[1] };
    for (int k = 0; k < 3; k++) {
        const int k1 = (k + 1) % 3;
        nf.push_back({ a[(size_t)k], a[(size_t)k1], c[k1] });
        nf.push_back({ a[(size_t)k], c[k1], c[k] });
    }
    r.F = nf;
    if (!topology(r).ok) return false;
    s = r;
    return true;
}

// ---------------------------------------------------------------------------------------------------------------
// Random surfaces

struct Options {
    bool closedOnly = false;
    bool forceOpen = false;
    bool single = false;       // one component
    int maxFaces = 200;
    bool allowHandles = true;
    bool nice = false;         // moderate geometric quality: no needle triangles
    double minAngleDeg = 0.0;  // discard worse meshes
    bool jitter = true;
    bool transform = true;     // random similarity
    bool permute = true;
    bool allowSingleTriangle = true;
    int minFaces = 1;
    bool planarOk = true;
};

inline bool distinctPositions(const Surf &s) {
    std::set<V3> q(s.P.begin(), s.P.end());
    return q.size() == s.P.size();
}
inline double meanEdge(const Surf &s) {
    double a = 0;
    int n = 0;
    for (const Tri &f : s.F) {
        for (int k = 0; k < 3; k++) {
            a += norm(s.P[(size_t)f[(size_t)k]] - s.P[(size_t)f[(size_t)(k + 1) % 3]]);
            n++;
        }
    }
    return a / n;
}

inline Surf basePrimitive(Gen &g, const Options &o, int budget, std::string &name) {
    Surf s;
    for (int guard = 0; guard < 20; guard++) {
        int kind = o.closedOnly ? g.weighted({ 2, 3, 4, 4, 3, 3, 2 }) : g.weighted({ 2, 3, 4, 4, 3, 3, 2, 4, 3, 2, 1 });
        unsigned diag;
        switch (kind) {
        case 0:
            s = tetrahedron();
            name = "tetrahedron";
            break;
        case 1: {
            int n = (int)g.integer(3, 12);
            s = bipyramid(n);
            name = pbt::fmt("bipyramid(%d)", n);
            break;
        }
        case 2:
            s = icosahedron();
            name = "icosahedron";
            break;
        case 3: {
            s = icosahedron();
            int n = (int)g.integer(1, 2);
            for (int i = 0; i < n; i++) s = subdivide(s, true);
            name = pbt::fmt("icosphere(%d)", n);
            break;
        }
        case 4: {
            int n = (int)g.integer(1, 4);
            s = cube(n);
            name = pbt::fmt("cube(%d)", n);
            break;
        }
        case 5: {
            int a = (int)g.integer(3, 14), b = (int)g.integer(3, 10);
            diag = (unsigned)g.pick(4);
            if (diag == 1 && ((a | b) & 1)) diag = 0;
            s = torus(a, b, 0.4, diag);
            name = pbt::fmt("torus(%d,%d)", a, b);
            break;
        }
        case 6: {
            int a = (int)g.integer(3, 10), b = (int)g.integer(2, 8);
            // closed tube: cap both ends
            s = tube(a, b, (unsigned)g.pick(3) == 2 ? 5u : 0u);
            const int n = (int)s.P.size();
            s.P.push_back(V3(0, 0, -0.5));
            s.P.push_back(V3(0, 0, 2.5));
            for (int i = 0; i < a; i++) {
                s.F.push_back({ (i + 1) % a, i, n });
                s.F.push_back({ n - a + i, n - a + (i + 1) % a, n + 1 });
            }
            name = pbt::fmt("capsule(%d,%d)", a, b);
            break;
        }
        case 7: {
            int a = (int)g.integer(1, 10), b = (int)g.integer(1, 10);
            s = planeGrid(a, b, (unsigned)g.pick(4));
            name = pbt::fmt("grid(%d,%d)", a, b);
            break;
        }
        case 8: {
            int a = (int)g.integer(3, 12), b = (int)g.integer(1, 8);
            s = tube(a, b, (unsigned)g.pick(4) >= 2 ? 5u : 0u);
            name = pbt::fmt("tube(%d,%d)", a, b);
            break;
        }
        case 9: {
            int n = (int)g.integer(3, 10);
            s = disc(n);
            name = pbt::fmt("disc(%d)", n);
            break;
        }
        default:
            s = Surf();
            s.P = { V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0) };
            s.F = { { 0, 1, 2 } };
            name = "triangle";
            if (!o.allowSingleTriangle) continue;
            break;
        }
        if ((int)s.F.size() <= budget) break;
        s = tetrahedron();
        name = "tetrahedron";
    }
    return s;
}

struct Made {
    Surf s;
    Topo t;
    std::string text;
    int handles = 0, holesCut = 0, refined = 0;
};

inline void permute(Gen &g, Surf &s) {
    Noise nz(g.seedChoice());
    std::vector<int> vp(s.P.size());
    for (size_t i = 0; i < vp.size(); i++) vp[i] = (int)i;
    for (size_t i = vp.size(); i > 1; i--) std::swap(vp[i - 1], vp[(size_t)nz.below((int)i)]);
    Surf r;
    r.P.resize(s.P.size());
    for (size_t i = 0; i < vp.size(); i++) r.P[(size_t)vp[i]] = s.P[i];
    for (const Tri &f : s.F) {
        int k = nz.below(3);
        r.F.push_back({ vp[(size_t)f[(size_t)k]], vp[(size_t)f[(size_t)(k + 1) % 3]], vp[(size_t)f[(size_t)(k + 2) % 3]] });
    }
    for (size_t i = r.F.size(); i > 1; i--) std::swap(r.F[i - 1], r.F[(size_t)nz.below((int)i)]);
    s = r;
}

inline Made randomSurface(Case &c, const Options &o) {
    Gen &g = c.g;
    Made m;
    std::string name;
    Surf s = basePrimitive(g, o, o.maxFaces, name);
    m.text = name;

    // More components
    if (!o.single) {
        double shift = 4.0;
        while ((int)s.F.size() < o.maxFaces / 2 && g.chance(0.2)) {
            Options o2 = o;
            Surf t = basePrimitive(g, o2, o.maxFaces / 2, name);
            append(s, t, V3(shift, 0.25, 0.125));
            shift += 4.0;
            m.text += "+" + name;
        }
    }
    // Refinement
    int guard = 0;
    while ((int)s.F.size() < o.maxFaces && guard++ < 40 && g.chance(0.6)) {
        const int kind = g.weighted({ 3, 3, 4, 1 });
        const int f = g.pick((int)s.F.size());
        if (kind == 0) {
            splitFace(s, f, o.nice ? 0.15 : g.real(-0.5, 0.5));
            m.refined++;
        } else if (kind == 1) {
            splitEdge(s, f, g.pick(3), o.nice ? 0.5 : g.real(0.1, 0.9));
            m.refined++;
        } else if (kind == 2) {
            if (flipEdge(s, f, g.pick(3))) m.refined++;
        } else if (o.allowHandles && !o.nice) {
            if (joinFaces(s, f, g.pick((int)s.F.size()))) {
                m.handles++;
                m.text += " join";
            }
        }
    }
    if (m.refined) m.text += pbt::fmt(" %d refinements", m.refined);
    // Holes
    if (!o.closedOnly) {
        bool force = o.forceOpen;
        int holes = 0;
        while (holes < 4 && (force || g.chance(0.35))) {
            force = false;
            holes++;
            std::set<int> dead = { g.pick((int)s.F.size()) };
            auto em = edgeMap(s);
            int grow = 0;
            while (grow++ < 12 && g.chance(0.55)) {
                // add a neighbour of the region
                std::vector<int> cand;
                for (int f : dead) {
                    for (int k = 0; k < 3; k++) {
                        auto it = em.find(Edge(s.F[(size_t)f][(size_t)(k + 1) % 3], s.F[(size_t)f][(size_t)k]));
                        if (it != em.end() && !dead.count(it->second)) cand.push_back(it->second);
                    }
                }
                if (cand.empty()) break;
                std::sort(cand.begin(), cand.end());
                dead.insert(cand[(size_t)g.pick((int)cand.size())]);
            }
            if ((int)s.F.size() - (int)dead.size() >= std::max(1, o.minFaces) && removeFaces(s, dead)) m.holesCut++;
        }
        if (m.holesCut) m.text += pbt::fmt(" %d cuts", m.holesCut);
    }
    // Geometry
    if (o.jitter && g.chance(0.7)) {
        const double a = (o.nice ? 0.12 : 0.3) * g.real(0.0, 1.0) * meanEdge(s);
        Noise nz(g.seedChoice());
        for (V3 &p : s.P) p += V3(nz.sym(), nz.sym(), nz.sym()) * a;
        m.text += " jitter";
    }
    if (o.transform && g.chance(0.5)) {
        const double sc = g.logReal(0.05, 20.0);
        const V3 ax(g.real(-1, 1), g.real(-1, 1), 1.0), sh(g.real(-10, 10), g.real(-10, 10), g.real(-10, 10));
        const Mat3 R = rotation(ax, g.real(0, 3));
        for (V3 &p : s.P) p = R * p * sc + sh;
        m.text += pbt::fmt(" scale %.3g", sc);
    }
    if (o.permute && g.chance(0.7)) {
        permute(g, s);
        m.text += " permuted";
    }
    if (!distinctPositions(s)) throw Discard();
    if ((int)s.F.size() < o.minFaces) throw Discard();
    if (o.minAngleDeg > 0 && s.minAngle() < o.minAngleDeg * M_PI / 180.0) throw Discard();
    m.t = topology(s);
    if (!m.t.ok) throw Discard();
    if (o.closedOnly && !m.t.closed()) throw Discard();
    if (o.forceOpen && m.t.loops.empty()) throw Discard();
    m.s = s;
    m.text += pbt::fmt(" [V=%d F=%d chi=%d comp=%d loops=%zu]", m.t.V, m.t.F, m.t.euler(), m.t.components, m.t.loops.size());
    c.describe("%s", m.text.c_str());
    if (m.t.closed()) {
        c.label("closed");
    } else {
        c.label("open");
    }
    if (m.t.components > 1) c.label("several components");
    if (m.t.loops.size() > 1) c.label("several holes");
    if (m.handles) c.label("handles");
    c.label(m.t.F < 10 ? "faces <10" : m.t.F < 50 ? "faces 10-49" : m.t.F < 200 ? "faces 50-199" : "faces >=200");
    return m;
}

// A torus with a hole, large enough for the descriptors of completion
inline Surf puncturedTorus(Case &c) {
    Gen &g = c.g;
    const int nu = g.integer(18, 22), nv = 320 / nu + g.integer(2, 4);
    Surf s = gridSurface(nu, nv, true, true, [&](double u, double v) {
        const double R = 1 + 0.4 * std::cos(2 * M_PI * v);
        return V3(R * std::cos(2 * M_PI * u), R * std::sin(2 * M_PI * u), 0.4 * std::sin(2 * M_PI * v));
    }, (unsigned)g.pick(3));
    Noise nz(g.seedChoice());
    const double amp = 0.05 * meanEdge(s);
    for (V3 &p : s.P) p += V3(nz.sym(), nz.sym(), nz.sym()) * amp;
    const int centre = g.pick((int)s.P.size());
    Surf r;
    r.P = s.P;
    for (const Tri &f : s.F)
        if (f[0] != centre && f[1] != centre && f[2] != centre) r.F.push_back(f);
    r.P[(size_t)centre] = r.P.back();
    for (Tri &f : r.F)
        for (int &v : f)
            if (v == (int)r.P.size() - 1) v = centre;
    r.P.pop_back();
    c.describe("torus %dx%d with a hole", nu, nv);
    return r;
}

}  // namespace ref
