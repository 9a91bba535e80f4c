// Curvature tensors fitted to the variation of vertex normals, from their definition.
#pragma once

#include "discrete.h"

namespace ref {

struct M33 {
    LD a[3][3] = { { 0, 0, 0 }, { 0, 0, 0 }, { 0, 0, 0 } };
    M33 operator+(const M33 &o) const {
        M33 r;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) r.a[i][j] = a[i][j] + o.a[i][j];
        return r;
    }
    M33 operator*(LD k) const {
        M33 r;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) r.a[i][j] = a[i][j] * k;
        return r;
    }
    L3 operator*(const L3 &v) const {
        L3 r;
        r.x = a[0][0] * v.x + a[0][1] * v.y + a[0][2] * v.z;
        r.y = a[1][0] * v.x + a[1][1] * v.y + a[1][2] * v.z;
        r.z = a[2][0] * v.x + a[2][1] * v.y + a[2][2] * v.z;
        return r;
    }
    LD form(const L3 &u, const L3 &v) const { return dot(u, *this * v); }
};
// k (u v^T + v u^T) / 2
inline M33 symmetric(const L3 &u, const L3 &v, LD k) {
    const LD x[3] = { u.x, u.y, u.z }, y[3] = { v.x, v.y, v.z };
    M33 m;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) m.a[i][j] = k * (x[i] * y[j] + x[j] * y[i]) / 2;
    return m;
}
inline L3 unitL(const L3 &v) { return v * (1 / norm(v)); }

// The least rotation that takes unit vector a to unit vector b, applied to v.
inline L3 turn(const L3 &a, const L3 &b, const L3 &v) {
    const L3 k = cross(a, b);
    const L3 kv = cross(k, v);
    return v + kv + cross(k, kv) * (1 / (1 + dot(a, b)));
}

// Solves a small dense system by elimination with pivoting.
template <int N>
bool solveSmall(LD (&A)[N][N], LD (&b)[N]) {
    for (int k = 0; k < N; k++) {
        int p = k;
        for (int i = k + 1; i < N; i++)
            if (fabsl(A[i][k]) > fabsl(A[p][k])) p = i;
        if (A[p][k] == 0) return false;
        for (int j = 0; j < N; j++) std::swap(A[k][j], A[p][j]);
        std::swap(b[k], b[p]);
        for (int i = 0; i < N; i++) {
            if (i == k) continue;
            const LD f = A[i][k] / A[k][k];
            for (int j = k; j < N; j++) A[i][j] -= f * A[k][j];
            b[i] -= f * b[k];
        }
    }
    for (int k = 0; k < N; k++) b[k] /= A[k][k];
    return true;
}

struct Curvature {
    std::vector<L3> n;       // vertex normals
    std::vector<L3> fn, fu;  // triangle normals and an axis in their plane
    std::vector<M33> T;      // curvature tensors of the vertices
    bool ok = true;          // no normals that nearly cancel or oppose each other
    double size = 0;         // largest entry of the fits, for tolerances

    Curvature(const Surf &s, const Adjacency &ad, bool smooth) {
        const size_t nv = s.P.size();
        for (size_t v = 0; v < nv; v++) {
            double clear = 0;
            n.push_back(L3(vertexNormal(s, ad, (int)v, &clear)));
            if (!(clear > 1e-3)) {
                ok = false;
                return;
            }
        }
        std::vector<M33> F;
        for (const Tri &t : s.F) {
            const L3 p[3] = { L3(s.P[(size_t)t[0]]), L3(s.P[(size_t)t[1]]), L3(s.P[(size_t)t[2]]) };
            const L3 u = unitL(p[1] - p[0]), w = unitL(cross(p[1] - p[0], p[2] - p[0])), v = cross(w, u);
            LD A[3][3] = { { 0, 0, 0 }, { 0, 0, 0 }, { 0, 0, 0 } }, b[3] = { 0, 0, 0 };
            for (int k = 0; k < 3; k++) {
                const L3 e = p[(k + 1) % 3] - p[k], d = n[(size_t)t[(size_t)((k + 1) % 3)]] - n[(size_t)t[(size_t)k]];
                // (E F; F G)(eu, ev) = (du, dv)
                const LD rows[2][3] = { { dot(e, u), dot(e, v), 0 }, { 0, dot(e, u), dot(e, v) } }, rhs[2] = { dot(d, u), dot(d, v) };
                for (int r = 0; r < 2; r++)
                    for (int i = 0; i < 3; i++) {
                        b[i] += rows[r][i] * rhs[r];
                        for (int j = 0; j < 3; j++) A[i][j] += rows[r][i] * rows[r][j];
                    }
            }
            if (!solveSmall<3>(A, b)) {
                ok = false;
                return;
            }
            for (int i = 0; i < 3; i++) size = std::max(size, (double)fabsl(b[i]));
            F.push_back(symmetric(u, u, b[0]) + symmetric(u, v, 2 * b[1]) + symmetric(v, v, b[2]));
            fn.push_back(w);
            fu.push_back(u);
        }
        for (size_t v = 0; v < nv; v++) {
            M33 sum;
            LD W = 0;
            for (auto &fk : ad.tri[v]) {
                const LD w = cornerArea(s, fk.first, fk.second);
                sum = sum + carried(F[(size_t)fk.first], n[v], fn[(size_t)fk.first]) * w;
                W += w;
            }
            T.push_back(sum * (1 / W));
        }
        if (smooth) {
            LD mean = 0;
            long count = 0;
            for (const auto &e : ad.face) {
                if (e.first.first > e.first.second && ad.face.count(Edge(e.first.second, e.first.first))) continue;
                mean += norm(L3(s.P[(size_t)e.first.first]) - L3(s.P[(size_t)e.first.second]));
                count++;
            }
            mean /= (LD)count;
            std::vector<M33> S;
            for (size_t v = 0; v < nv; v++) {
                M33 sum = T[v];
                LD W = 1;
                for (int j : ad.nb[v]) {
                    const LD d = norm(L3(s.P[v]) - L3(s.P[(size_t)j])) / mean, w = expl(-d * d / 2);
                    sum = sum + carried(T[(size_t)j], n[v], n[(size_t)j]) * w;
                    W += w;
                }
                S.push_back(sum * (1 / W));
            }
            T = S;
        }
    }
    // The tensor m of the plane perpendicular to b, in the plane perpendicular to a.
    M33 carried(const M33 &m, const L3 &a, const L3 &b) {
        if (!(dot(a, b) > -0.9L)) ok = false;
        L3 x, y;
        axes(a, x, y);
        const L3 u = turn(a, b, x), v = turn(a, b, y);
        return symmetric(x, x, m.form(u, u)) + symmetric(x, y, 2 * m.form(u, v)) + symmetric(y, y, m.form(v, v));
    }
    static void axes(const L3 &a, L3 &x, L3 &y) {
        const LD ax = fabsl(a.x), ay = fabsl(a.y), az = fabsl(a.z);
        L3 e;
        if (ax <= ay && ax <= az) e.x = 1;
        else if (ay <= az) e.y = 1;
        else e.z = 1;
        x = unitL(cross(a, e));
        y = cross(a, x);
    }
    void principal(size_t v, LD &kmax, LD &kmin) const {
        L3 x, y;
        axes(n[v], x, y);
        const LD e = T[v].form(x, x), f = T[v].form(x, y), g = T[v].form(y, y);
        const LD m = (e + g) / 2, r = hypotl((e - g) / 2, f);
        kmax = m + r;
        kmin = m - r;
    }
    // Derivative of the curvature tensor of each vertex along t, applied to (t, t): the cubic form fitted per triangle.
    struct Cubic {
        LD c[4];
        L3 u, v;
        LD operator()(const L3 &t) const {
            const LD a = dot(t, u), b = dot(t, v);
            return c[0] * a * a * a + 3 * c[1] * a * a * b + 3 * c[2] * a * b * b + c[3] * b * b * b;
        }
    };
    std::vector<Cubic> cubics(const Surf &s) {
        std::vector<Cubic> r;
        for (size_t f = 0; f < s.F.size(); f++) {
            const Tri &t = s.F[f];
            const L3 w = fn[f], u = fu[f], v = cross(w, u);
            LD m[3][3];
            for (int k = 0; k < 3; k++) {
                const M33 c = carried(T[(size_t)t[(size_t)k]], w, n[(size_t)t[(size_t)k]]);
                m[k][0] = c.form(u, u);
                m[k][1] = c.form(u, v);
                m[k][2] = c.form(v, v);
            }
            LD A[4][4], b[4];
            for (int i = 0; i < 4; i++) {
                b[i] = 0;
                for (int j = 0; j < 4; j++) A[i][j] = 0;
            }
            for (int k = 0; k < 3; k++) {
                const int q = (k + 1) % 3;
                const L3 e = L3(s.P[(size_t)t[(size_t)q]]) - L3(s.P[(size_t)t[(size_t)k]]);
                const LD x = dot(e, u), y = dot(e, v);
                const LD rows[3][4] = { { x, y, 0, 0 }, { 0, x, y, 0 }, { 0, 0, x, y } }, weight[3] = { 1, 2, 1 };
                for (int h = 0; h < 3; h++)
                    for (int i = 0; i < 4; i++) {
                        b[i] += weight[h] * rows[h][i] * (m[q][h] - m[k][h]);
                        for (int j = 0; j < 4; j++) A[i][j] += weight[h] * rows[h][i] * rows[h][j];
                    }
            }
            Cubic c;
            if (!solveSmall<4>(A, b)) ok = false;
            for (int i = 0; i < 4; i++) c.c[i] = b[i];
            c.u = u;
            c.v = v;
            r.push_back(c);
        }
        return r;
    }
    LD derivative(const Surf &s, const Adjacency &ad, const std::vector<Cubic> &q, int v, const L3 &t) const {
        LD sum = 0, W = 0;
        for (auto &fk : ad.tri[(size_t)v]) {
            const LD w = cornerArea(s, fk.first, fk.second);
            sum += w * q[(size_t)fk.first](turn(n[(size_t)v], fn[(size_t)fk.first], t));
            W += w;
        }
        return sum / W;
    }
};

}  // namespace ref
