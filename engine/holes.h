// Holes of a mesh, as the hole-filling checks use them.
#pragma once
#include "discrete.h"
#include "edits.h"

namespace ref {

// Whether two vertices of the loop that do not follow each other are joined by an edge.
inline bool hasChord(const std::vector<int> &loop, const std::map<Edge, int> &em) {
    const int n = (int)loop.size();
    for (int i = 0; i < n; i++) {
        for (int j = i + 2; j < n; j++) {
            if (i == 0 && j == n - 1) continue;
            if (hasEdge(em, loop[(size_t)i], loop[(size_t)j])) return true;
        }
    }
    return false;
}

// Loop rotated to begin with its smallest vertex.
inline std::vector<int> canonLoop(std::vector<int> l) {
    std::rotate(l.begin(), std::min_element(l.begin(), l.end()), l.end());
    return l;
}

// A flat sheet, irregular inside its plane, with one hole cut out of its middle.
inline bool flatSheetWithHole(Case &c, Surf &s, std::vector<int> &hole) {
    Gen &g = c.g;
    const int a = (int)g.integer(3, 9), b = (int)g.integer(3, 9);
    s = planeGrid(a, b, (unsigned)g.pick(4));
    const double amp = g.real(0.01, 0.24);
    Noise nz(g.seedChoice());
    for (V3 &p : s.P) p += V3(nz.sym(), nz.sym(), 0) * amp;
    // Region of triangles that keeps away from the rim of the sheet
    const Adjacency ad(s);
    std::vector<int> inner;
    for (size_t f = 0; f < s.F.size(); f++) {
        bool in = true;
        for (int v : s.F[f]) in &= !ad.boundary[(size_t)v];
        if (in) inner.push_back((int)f);
    }
    if (inner.empty()) return false;
    std::set<int> dead = { inner[(size_t)g.pick((int)inner.size())] };
    const std::set<int> ok(inner.begin(), inner.end());
    const int grow = (int)g.integer(0, 24);
    for (int i = 0; i < grow; i++) {
        std::set<int> cand;
        for (int f : dead) {
            for (int k = 0; k < 3; k++) {
                auto it = ad.face.find(Edge(s.F[(size_t)f][(size_t)(k + 1) % 3], s.F[(size_t)f][(size_t)k]));
                if (it != ad.face.end() && ok.count(it->second) && !dead.count(it->second)) cand.insert(it->second);
            }
        }
        if (cand.empty()) break;
        auto it = cand.begin();
        std::advance(it, g.pick((int)cand.size()));
        dead.insert(*it);
    }
    if (!removeFaces(s, dead)) return false;
    const Topo t = topology(s);
    if (!t.ok || t.loops.size() != 2 || t.components != 1) return false;
    // The outer loop encloses the larger area
    double area[2];
    for (int k = 0; k < 2; k++) {
        area[k] = 0;
        const auto &l = t.loops[(size_t)k];
        for (size_t i = 0; i < l.size(); i++) {
            const V3 &p = s.P[(size_t)l[i]], &q = s.P[(size_t)l[(i + 1) % l.size()]];
            area[k] += 0.5 * (p.x * q.y - p.y * q.x);
        }
        area[k] = std::fabs(area[k]);
    }
    hole = t.loops[area[0] < area[1] ? 0 : 1];
    c.describe("flat sheet %dx%d, hole of %zu edges", a, b, hole.size());
    return true;
}

// Cuts up to `most` holes of at most a third of the triangles into a closed surface.
inline bool cutHoles(Case &c, Surf &s, int most, int maxGrow) {
    Gen &g = c.g;
    const size_t total = s.F.size();
    int done = 0;
    do {
        const auto em = edgeMap(s);
        std::set<int> dead = { g.pick((int)s.F.size()) };
        int grow = (int)g.integer(0, maxGrow);
        // Grow compactly (all neighbours of a vertex) or triangle by triangle
        const bool compact = g.chance(0.4);
        while (grow-- > 0 && dead.size() < total / 3) {
            std::set<int> cand;
            if (compact && dead.size() == 1) {
                const int v = s.F[(size_t)*dead.begin()][0];
                for (size_t f = 0; f < s.F.size(); f++) {
                    for (int w : s.F[f]) {
                        if (w == v) dead.insert((int)f);
                    }
                }
                continue;
            }
            for (int f : dead) {
                for (int k = 0; k < 3; k++) {
                    auto it = em.find(Edge(s.F[(size_t)f][(size_t)(k + 1) % 3], s.F[(size_t)f][(size_t)k]));
                    if (it != em.end() && !dead.count(it->second)) cand.insert(it->second);
                }
            }
            if (cand.empty()) break;
            auto it = cand.begin();
            std::advance(it, g.pick((int)cand.size()));
            dead.insert(*it);
        }
        Surf t = s;
        if ((int)dead.size() * 3 <= (int)total && removeFaces(t, dead)) {
            s = t;
            done++;
        }
    } while (--most > 0 && s.F.size() * 3 > total * 2 && g.chance(0.4));
    return done > 0;
}

}  // namespace ref
