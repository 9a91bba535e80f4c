// P06: minimum-dihedral hole filling closes holes and leaves the rest untouched.
#include "holes.h"
#include "restore/restore.h"
using namespace ref;

// Bend along edge a-b between triangles with apexes p and q: zero when flat, pi when folded back or degenerate.
static LD bend(const V3 &p, const V3 &a, const V3 &b, const V3 &q, bool &shaky) {
    const L3 n1 = cross(L3(a) - L3(p), L3(b) - L3(p)), n2 = cross(L3(b) - L3(q), L3(a) - L3(q));
    const LD l1 = norm(n1), l2 = norm(n2), ab = norm(L3(a) - L3(b));
    // Nearly degenerate triangles have no well-defined plane
    if (l1 < 1e-6L * (ab * ab + dot(L3(a) - L3(p), L3(a) - L3(p))) || l2 < 1e-6L * (ab * ab + dot(L3(a) - L3(q), L3(a) - L3(q)))) shaky = true;
    if (l1 == 0 || l2 == 0) return acosl(-1.0L);
    const LD c = dot(n1, n2) / (l1 * l2);
    return acosl(std::max(-1.0L, std::min(1.0L, c)));
}

// The dynamic program over largest bend and area.  Returns false if a decision is too close to call.
static bool program(const std::vector<V3> &p, const std::vector<V3> &across, double bound, std::vector<Tri> &out) {
    const int n = (int)p.size();
    bool shaky = false;
    std::vector<std::vector<LD>> area((size_t)n, std::vector<LD>((size_t)n, 0)), angle = area;
    std::vector<std::vector<int>> apex((size_t)n, std::vector<int>((size_t)n, -1));
    auto tri = [&](int a, int b, int c2) { return 0.5L * norm(cross(L3(p[(size_t)b]) - L3(p[(size_t)a]), L3(p[(size_t)c2]) - L3(p[(size_t)a]))); };
    for (int j = 2; j < n; j++) {
        for (int i = 0; i + j < n; i++) {
            const int k = i + j;
            bool first = true;
            for (int m = i + 1; m < k; m++) {
                const V3 &q1 = m == i + 1 ? across[(size_t)i] : p[(size_t)apex[(size_t)i][(size_t)m]];
                const V3 &q2 = k == m + 1 ? across[(size_t)m] : p[(size_t)apex[(size_t)m][(size_t)k]];
                const LD d = std::max(bend(p[(size_t)k], p[(size_t)i], p[(size_t)m], q1, shaky), bend(p[(size_t)i], p[(size_t)m], p[(size_t)k], q2, shaky));
                const LD w = std::max(d, std::max(angle[(size_t)i][(size_t)m], angle[(size_t)m][(size_t)k]));
                const LD a = tri(i, m, k) + area[(size_t)i][(size_t)m] + area[(size_t)m][(size_t)k];
                if (shaky) return false;
                bool take = first;
                if (!first) {
                    const LD w0 = angle[(size_t)i][(size_t)k], a0 = area[(size_t)i][(size_t)k], diff = fabsl(w - w0);
                    // The same bend may decide both candidates, then they are equal up to rounding, hence not comparable
                    if (diff < 1e-6L || fabsl(diff - (LD)bound) < 1e-6L || fabsl(a - a0) < 1e-9L * (a + a0)) return false;
                    take = w < w0 || (diff < (LD)bound && a < a0);
                }
                first = false;
                if (take) {
                    angle[(size_t)i][(size_t)k] = w;
                    area[(size_t)i][(size_t)k] = a;
                    apex[(size_t)i][(size_t)k] = m;
                }
            }
        }
    }
    std::vector<Edge> todo = { Edge(0, n - 1) };
    while (!todo.empty()) {
        const Edge e = todo.back();
        todo.pop_back();
        if (e.second - e.first < 2) continue;
        const int m = apex[(size_t)e.first][(size_t)e.second];
        out.push_back({ e.first, m, e.second });
        todo.push_back(Edge(e.first, m));
        todo.push_back(Edge(m, e.second));
    }
    return true;
}

static void prop(Case &c) {
    Surf input;
    std::vector<int> flatHole;
    const bool flat = c.g.chance(0.25);
    if (flat) {
        if (!flatSheetWithHole(c, input, flatHole)) throw Discard();
        c.label("flat sheet");
    } else {
        Options o;
        o.maxFaces = c.thorough ? 250 : 120;
        o.forceOpen = true;
        input = randomSurface(c, o).s;
    }
    tm::Mesh m = toMesh(input);
    if (!flat && c.g.chance(0.3)) randomHistory(c, m, 15);
    const View before = viewOf(m);
    if (!distinctPositions(before.s)) throw Discard();
    const auto em = edgeMap(before.s);
    std::vector<char> locked;
    for (int i = 0; i < (int)m.numVertices(); i++) {
        if (c.g.chance(0.05)) m.vertex(i)->lock();
        locked.push_back(m.vertex(i)->isLocked());
    }

    // Holes to fill
    std::vector<int> fillable;
    for (size_t h = 0; h < before.holes.size(); h++) {
        if (before.holes[h].size() > 60) continue;
        if (!hasChord(before.holes[h], em)) fillable.push_back((int)h);
    }
    if (flat) {
        std::vector<int> only;
        const std::set<int> want(flatHole.begin(), flatHole.end());
        for (int h : fillable) {
            if (std::set<int>(before.holes[(size_t)h].begin(), before.holes[(size_t)h].end()) == want) only.push_back(h);
        }
        if (only.empty() || before.s.P.size() != input.P.size() || before.s.P != input.P) throw Discard();
        fillable = only;
    }
    if (fillable.empty()) throw Discard();
    const bool all = c.g.chance(0.5);
    if (all) {
        c.g.shuffle(fillable);
    } else {
        fillable = { fillable[(size_t)c.g.pick((int)fillable.size())] };
    }
    const int how = c.g.pick(4);
    const double bound = how == 0 ? M_PI : how == 1 ? 0.0 : how == 2 ? 1e-3 : c.g.real(0.01, 3.0);
    c.describe("; filling %zu of %zu holes, bound %.4g", fillable.size(), before.holes.size(), bound);
    std::vector<tm::Face *> target;
    size_t newTriangles = 0;
    for (int h : fillable) {
        target.push_back(m.face(before.holeFace[(size_t)h]));
        newTriangles += before.holes[(size_t)h].size() - 2;
    }
    const bool together = !flat && how == 0 && fillable.size() == before.holes.size() && c.g.chance(0.5);
    if (together) {
        c.label("all holes in one call");
        m.fillHoles();
        target.clear();
    }
    for (tm::Face *f : target) {
        if (how == 0 && c.g.chance(0.5)) {
            tm::holeFillMinDihedral(m, f);
        } else {
            tm::holeFillMinDihedral(m, f, bound);
        }
    }

    // Structure, untouched surface
    requireValid(c, m, "after filling");
    const View after = viewOf(m);
    c.require(after.s.P == before.s.P, "vertices were added, moved or renumbered");
    for (int i = 0; i < (int)m.numVertices(); i++) c.require(m.vertex(i)->isLocked() == (bool)locked[(size_t)i], "lock of vertex %d changed", i);
    const auto ib = indexSet(before.s), ia = indexSet(after.s);
    std::vector<Tri> lost, added;
    std::set_difference(ib.begin(), ib.end(), ia.begin(), ia.end(), std::back_inserter(lost));
    std::set_difference(ia.begin(), ia.end(), ib.begin(), ib.end(), std::back_inserter(added));
    c.require(lost.empty(), "%zu existing triangles were lost", lost.size());
    c.require(added.size() == newTriangles, "%zu new triangles instead of %zu", added.size(), newTriangles);
    const std::set<int> chosen(fillable.begin(), fillable.end());
    std::multiset<std::vector<int>> wantHoles, gotHoles;
    for (size_t h = 0; h < before.holes.size(); h++) {
        if (!chosen.count((int)h)) wantHoles.insert(canonLoop(before.holes[h]));
    }
    for (auto &h : after.holes) gotHoles.insert(canonLoop(h));
    c.require(wantHoles == gotHoles, "%zu holes remain instead of %zu, or they have changed", gotHoles.size(), wantHoles.size());

    // The new triangles of each hole lie over its vertices
    std::map<int, int> where;
    for (int h : fillable) {
        for (int v : before.holes[(size_t)h]) where[v] = h;
    }
    std::map<int, std::vector<Tri>> byHole;
    for (const Tri &t : added) {
        for (int v : t) c.require(where.count(v) && where[v] == where[t[0]], "a new triangle is not over the vertices of one hole");
        byHole[where[t[0]]].push_back(t);
    }
    for (int h : fillable) {
        c.require(byHole[h].size() == before.holes[(size_t)h].size() - 2, "hole of %zu edges was filled by %zu triangles", before.holes[(size_t)h].size(), byHole[h].size());
        for (int v : before.holes[(size_t)h]) c.require(!m.vertex(v)->isBoundary(), "vertex %d of a filled hole is still boundary", v);
    }

    // Which triangulation
    for (int h : fillable) {
        const std::vector<int> &loop = before.holes[(size_t)h];
        const int n = (int)loop.size();
        if (n > 3) c.nontrivial = true;
        c.label(n == 3 ? "hole of 3" : n == 4 ? "hole of 4" : n < 8 ? "hole of 5-7" : "hole of 8 and more");
        std::vector<V3> p, across;
        for (int i = 0; i < n; i++) {
            const int a = loop[(size_t)i], b = loop[(size_t)((i + 1) % n)];
            p.push_back(before.s.P[(size_t)a]);
            across.push_back(before.s.P[(size_t)other(before.s.F[(size_t)em.at(Edge(b, a))], a, b)]);
        }
        std::vector<Tri> want;
        if (!flat && program(p, across, bound, want)) {
            std::vector<Tri> ws;
            for (const Tri &t : want) ws.push_back(canonIdx({ loop[(size_t)t[0]], loop[(size_t)t[1]], loop[(size_t)t[2]] }));
            std::sort(ws.begin(), ws.end());
            std::vector<Tri> got = byHole[h];
            std::sort(got.begin(), got.end());
            c.require(ws == got, "hole of %d edges was triangulated otherwise than the bend and area rule says (bound %g)", n, bound);
            if (n > 3) c.label("triangulation compared");
        }
        if (flat) {
            double need = 0, lowest = 1e300, area = 0;
            bool convex = true;
            for (int i = 0; i < n; i++) {
                const V3 &a = p[(size_t)i], &b = p[(size_t)((i + 1) % n)], &d = p[(size_t)((i + 2) % n)];
                need += 0.5 * (a.x * b.y - a.y * b.x);
                if (cross(b - a, d - b).z < 1e-9) convex = false;
            }
            for (const Tri &t : byHole[h]) {
                const V3 &a = after.s.P[(size_t)t[0]], &b = after.s.P[(size_t)t[1]], &d = after.s.P[(size_t)t[2]];
                const double x = 0.5 * cross(b - a, d - a).z;
                area += std::fabs(x);
                lowest = std::min(lowest, x);
            }
            // Three rim vertices on a line make a triangle without a plane; such holes only count when convex
            bool line = false;
            for (int i = 0; i < n && !line; i++) {
                for (int j = i + 1; j < n && !line; j++) {
                    for (int k = j + 1; k < n; k++) {
                        if (std::fabs(cross(p[(size_t)j] - p[(size_t)i], p[(size_t)k] - p[(size_t)i]).z) < 1e-6) line = true;
                    }
                }
            }
            if (convex || (bound < 0.01 && !line)) {
                c.label(convex ? "flat convex hole" : "flat non-convex hole");
                c.require(lowest > -1e-9, "flat %s hole of %d edges: a triangle is turned over", convex ? "convex" : "non-convex", n);
                c.require(std::fabs(area - need) <= 1e-9 * (1 + need), "flat hole of area %.12g filled by area %.12g", need, area);
            }
        }
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P06";
    cfg.rule = "random open manifolds (some after edits) and flat sheets; one or all holes without chords are filled; non-trivial if a filled hole has more than 3 edges";
    cfg.prop = prop;
    cfg.quickCases = 40000;
    cfg.thoroughCases = 400000;
    cfg.assumptions = { "no two vertices of a filled hole that do not follow each other are joined by an existing edge",
                        "holes of at most 60 edges" };
    return pbt::run(cfg, argc, argv);
}
