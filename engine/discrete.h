// Discrete differential quantities of an indexed surface, from their definitions.
#pragma once

#include "geom.h"

namespace ref {

struct Adjacency {
    std::vector<std::vector<std::pair<int, int>>> tri;  // for each vertex: (triangle, corner)
    std::map<Edge, int> face;                           // directed edge -> triangle
    std::vector<std::set<int>> nb;                      // neighbours
    std::vector<char> boundary;
    explicit Adjacency(const Surf &s) : tri(s.P.size()), face(edgeMap(s)), nb(s.P.size()), boundary(s.P.size(), 0) {
        for (size_t f = 0; f < s.F.size(); f++) {
            for (int k = 0; k < 3; k++) {
                const int a = s.F[f][(size_t)k], b = s.F[f][(size_t)((k + 1) % 3)];
                tri[(size_t)a].push_back({ (int)f, k });
                nb[(size_t)a].insert(b);
                nb[(size_t)b].insert(a);
                if (!face.count(Edge(b, a))) boundary[(size_t)a] = boundary[(size_t)b] = 1;
            }
        }
    }
};

inline LD cotAt(const V3 &p, const V3 &a, const V3 &b) {
    const L3 u = L3(a) - L3(p), v = L3(b) - L3(p);
    return dot(u, v) / norm(cross(u, v));
}
// Half the sum of the cotangents opposite an edge.
inline LD cotWeight(const Surf &s, const Adjacency &ad, int i, int j) {
    LD w = 0;
    for (int side = 0; side < 2; side++) {
        auto it = ad.face.find(side ? Edge(j, i) : Edge(i, j));
        if (it == ad.face.end()) continue;
        const int o = other(s.F[(size_t)it->second], i, j);
        w += 0.5L * cotAt(s.P[(size_t)o], s.P[(size_t)i], s.P[(size_t)j]);
    }
    return w;
}
inline LD triArea(const Surf &s, int f) {
    const Tri &t = s.F[(size_t)f];
    const L3 a(s.P[(size_t)t[0]]), b(s.P[(size_t)t[1]]), c(s.P[(size_t)t[2]]);
    return 0.5L * norm(cross(b - a, c - a));
}
// Part of a triangle that belongs to its k-th corner (Voronoi region, made safe for obtuse triangles).
inline LD cornerArea(const Surf &s, int f, int k) {
    const Tri &t = s.F[(size_t)f];
    const V3 &p = s.P[(size_t)t[(size_t)k]], &q = s.P[(size_t)t[(size_t)((k + 1) % 3)]], &r = s.P[(size_t)t[(size_t)((k + 2) % 3)]];
    const LD cp = dot(L3(q) - L3(p), L3(r) - L3(p)), cq = dot(L3(p) - L3(q), L3(r) - L3(q)), cr = dot(L3(p) - L3(r), L3(q) - L3(r));
    if (cp < 0) return triArea(s, f) / 2;
    if (cq < 0 || cr < 0) return triArea(s, f) / 4;
    const L3 pq = L3(q) - L3(p), pr = L3(r) - L3(p);
    return (dot(pr, pr) * cotAt(q, p, r) + dot(pq, pq) * cotAt(r, p, q)) / 8;
}
inline LD vertexArea(const Surf &s, const Adjacency &ad, int v) {
    LD a = 0;
    for (auto &fk : ad.tri[(size_t)v]) a += cornerArea(s, fk.first, fk.second);
    return a;
}
// Normal as a sum of e1 x e2 / (|e1|^2 |e2|^2); `clear` tells how far the sum is from cancelling.
inline V3 vertexNormal(const Surf &s, const Adjacency &ad, int v, double *clear = nullptr) {
    L3 n;
    LD mag = 0;
    const L3 p(s.P[(size_t)v]);
    for (auto &fk : ad.tri[(size_t)v]) {
        const Tri &t = s.F[(size_t)fk.first];
        const L3 a = L3(s.P[(size_t)t[(size_t)((fk.second + 1) % 3)]]) - p, b = L3(s.P[(size_t)t[(size_t)((fk.second + 2) % 3)]]) - p;
        const LD w = 1 / (dot(a, a) * dot(b, b));
        n = n + cross(a, b) * w;
        mag += norm(cross(a, b)) * w;
    }
    const LD l = norm(n);
    if (clear) *clear = mag > 0 ? (double)(l / mag) : 0.0;
    if (l == 0) return V3();
    return V3((double)(n.x / l), (double)(n.y / l), (double)(n.z / l));
}
inline double minAngle(const Surf &s) {
    double m = 10;
    for (const Tri &t : s.F) {
        for (int k = 0; k < 3; k++) m = std::min(m, angleAt(s.P[(size_t)t[(size_t)k]], s.P[(size_t)t[(size_t)((k + 1) % 3)]], s.P[(size_t)t[(size_t)((k + 2) % 3)]]));
    }
    return m;
}

// A random similarity: x -> k R x + t
struct Similarity {
    Mat3 R;
    double k = 1;
    V3 t;
    V3 operator()(const V3 &p) const { return (R * p) * k + t; }
    V3 dir(const V3 &p) const { return R * p; }
    Surf operator()(const Surf &s) const {
        Surf o = s;
        for (V3 &p : o.P) p = (*this)(p);
        return o;
    }
};
inline Similarity randomSimilarity(Gen &g, double size, bool scale) {
    Similarity m;
    m.R = rotation(randomDirection(g), g.real(0, 3));
    if (scale) m.k = g.logReal(1e-2, 1e2);
    m.t = V3(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)) * (size * m.k);
    return m;
}

}  // namespace ref
