// Reference for advancing-front hole filling: which triangles the rules put into a hole.
#pragma once
#include "discrete.h"

namespace ref {

struct Front {
    std::vector<L3> P;          // positions while the front advances
    std::vector<Tri> F;         // existing triangles, followed by the patch
    std::vector<char> fixed;    // rim vertices
    std::vector<int> loop;
    size_t existing;
    bool clear = true;          // no decision hung on rounding
    int steps = 0, merges = 0, sharp = 0, medium = 0, flat = 0;

    static bool near(LD a, LD b) { return fabsl(a - b) <= 1e-7L * (1 + fabsl(b)); }

    Front(const Surf &s, const std::vector<int> &hole, LD meanLength) : F(s.F), loop(hole), existing(s.F.size()) {
        for (const V3 &p : s.P) P.push_back(L3(p));
        fixed.assign(P.size(), 0);
        for (int v : hole) fixed[(size_t)v] = 1;
        while (clear && loop.size() > 3) {
            if (++steps > 2000) {
                clear = false;
                break;
            }
            if (!merge(meanLength)) advance();
        }
        if (clear) F.push_back(Tri{ loop[0], loop[1], loop[2] });
    }

    // Two neighbouring new vertices of the front that come too close become one. Which of several pairs goes first
    // is not laid down.
    bool merge(LD meanLength) {
        const size_t n = loop.size();
        std::vector<size_t> close;
        for (size_t i = 0; i < n; i++) {
            const int a = loop[i], b = loop[(i + 1) % n];
            if (fixed[(size_t)a] || fixed[(size_t)b]) continue;
            const LD l = norm(P[(size_t)a] - P[(size_t)b]) / meanLength;
            if (near(l, 0.5L)) clear = false;
            if (l < 0.5L) close.push_back(i);
        }
        if (close.size() > 1) clear = false;
        if (close.empty() || !clear) return !clear;
        const size_t i = close[0];
        const int a = loop[i], b = loop[(i + 1) % n];
        P[(size_t)b] = (P[(size_t)a] + P[(size_t)b]) * 0.5L;
        std::vector<Tri> left;
        for (size_t f = 0; f < F.size(); f++) {
            Tri t = F[f];
            int hits = 0;
            for (int &v : t) {
                hits += v == a || v == b;
                if (v == a) v = b;
            }
            if (hits < 2) left.push_back(t);
        }
        if (left.size() + 1 != F.size()) clear = false;
        F = left;
        std::vector<int> next;
        for (size_t k = 1; k < n; k++) next.push_back(loop[(i + k) % n]);
        loop = next;
        merges++;
        return true;
    }

    L3 normalAt(const std::map<Edge, int> &at, int a, int b) {
        auto it = at.find(Edge(b, a));
        if (it == at.end()) {
            clear = false;
            return L3();
        }
        const Tri &t = F[(size_t)it->second];
        const L3 n = cross(P[(size_t)t[1]] - P[(size_t)t[0]], P[(size_t)t[2]] - P[(size_t)t[0]]);
        if (!(norm(n) > 1e-9L * normsq(P[(size_t)t[1]] - P[(size_t)t[0]]))) clear = false;
        return n * (1 / norm(n));
    }
    static LD normsq(const L3 &a) { return dot(a, a); }

    int add(const L3 &p) {
        P.push_back(p);
        fixed.push_back(0);
        return (int)P.size() - 1;
    }

    // The sharpest corner gets one, two or three triangles.
    void advance() {
        std::map<Edge, int> at;
        for (size_t f = 0; f < F.size(); f++)
            for (int k = 0; k < 3; k++) at[Edge(F[f][(size_t)k], F[f][(size_t)((k + 1) % 3)])] = (int)f;
        const size_t n = loop.size();
        LD best = 1e9L, second = 1e9L;
        size_t m = 0;
        for (size_t i = 0; i < n; i++) {
            const int a = loop[(i + n - 1) % n], v = loop[i], b = loop[(i + 1) % n];
            const L3 up = normalAt(at, a, v) + normalAt(at, v, b);
            const L3 e1 = P[(size_t)a] - P[(size_t)v], e2 = P[(size_t)b] - P[(size_t)v], o = cross(e2, e1);
            if (!(fabsl(dot(o, up)) > 1e-7L * norm(e1) * norm(e2))) clear = false;
            LD t = atan2l(norm(o), dot(e1, e2));
            if (dot(o, up) < 0) t = 2 * acosl(-1.0L) - t;
            if (t < best) {
                second = best;
                best = t;
                m = i;
            } else {
                second = std::min(second, t);
            }
        }
        const LD deg = best * 180 / acosl(-1.0L);
        // a front of reflex corners has folded over itself; no claim for that
        if (near(best, second) || near(deg, 75) || near(deg, 135) || deg > 179) clear = false;
        if (!clear) return;
        const int a = loop[(m + n - 1) % n], v = loop[m], b = loop[(m + 1) % n];
        const L3 e1 = P[(size_t)a] - P[(size_t)v], e2 = P[(size_t)b] - P[(size_t)v];
        std::vector<int> mid;
        if (deg > 75 && deg <= 135) {
            const L3 d = e1 + e2;
            mid.push_back(add(P[(size_t)v] + d * ((norm(e1) + norm(e2)) / 2 / norm(d))));
            medium++;
        } else if (deg > 135) {
            const L3 d1 = e1 * (1 / norm(e1)), d2 = e2 * (1 / norm(e2)), x = d1 * 2.0L + d2, y = d1 + d2 * 2.0L;
            mid.push_back(add(P[(size_t)v] + x * ((norm(e1) * 2 + norm(e2)) / 3 / norm(x))));
            mid.push_back(add(P[(size_t)v] + y * ((norm(e1) + norm(e2) * 2) / 3 / norm(y))));
            flat++;
        } else {
            sharp++;
        }
        std::vector<int> row = { a };
        row.insert(row.end(), mid.begin(), mid.end());
        row.push_back(b);
        for (size_t k = 0; k + 1 < row.size(); k++) F.push_back(Tri{ row[k], v, row[k + 1] });
        std::vector<int> next = row;
        for (size_t k = 2; k < n - 1; k++) next.push_back(loop[(m + k) % n]);
        loop = next;
    }

    // Whether `patch` is this patch up to the names of its new vertices, and what it calls them.
    bool same(const std::vector<Tri> &patch, const std::vector<int> &rim, std::map<int, int> &to) const {
        const std::vector<Tri> mine(F.begin() + (long)existing, F.end());
        if (mine.size() != patch.size()) return false;
        std::map<Edge, int> x, y;
        for (const Tri &t : mine)
            for (int k = 0; k < 3; k++) x[Edge(t[(size_t)k], t[(size_t)((k + 1) % 3)])] = t[(size_t)((k + 2) % 3)];
        for (const Tri &t : patch)
            for (int k = 0; k < 3; k++) y[Edge(t[(size_t)k], t[(size_t)((k + 1) % 3)])] = t[(size_t)((k + 2) % 3)];
        if (x.size() != 3 * mine.size() || y.size() != 3 * patch.size()) return x.size() == y.size();
        to.clear();
        for (int v : rim) to[v] = v;
        std::vector<Edge> todo = { Edge(rim[0], rim[1]) };
        std::set<Edge> seen;
        while (!todo.empty()) {
            const Edge e = todo.back();
            todo.pop_back();
            if (!seen.insert(e).second) continue;
            auto i = x.find(e), j = y.find(Edge(to[e.first], to[e.second]));
            if ((i == x.end()) != (j == y.end())) return false;
            if (i == x.end()) continue;
            auto k = to.find(i->second);
            if (k == to.end()) to[i->second] = j->second;
            else if (k->second != j->second) return false;
            const int c = i->second;
            seen.insert(Edge(e.second, c));
            seen.insert(Edge(c, e.first));
            todo.push_back(Edge(c, e.second));
            todo.push_back(Edge(e.first, c));
        }
        return true;
    }
};

}  // namespace ref
