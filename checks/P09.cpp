// P09: simplification reaches its target without breaking the mesh.
#include <fcntl.h>
#include <unistd.h>

#include "filters/filters.h"
#include "remesh/remesh.h"
#include "discrete.h"
#include "edits.h"
using namespace ref;

// Progress bars go to the standard output; keep them away from the log.
struct Quiet {
    int keep;
    Quiet() {
        fflush(stdout);
        std::cout.flush();
        keep = dup(1);
        const int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        close(null);
    }
    ~Quiet() {
        fflush(stdout);
        std::cout.flush();
        dup2(keep, 1);
        close(keep);
    }
};

static bool simplify(tm::Mesh &m, int target, int trials, bool verbose) {
    Quiet q;
    try {
        tm::simplifyQEM(m, target, trials, verbose);
    } catch (const std::exception &) {
        return false;
    }
    return true;
}

// Boundary loops as cyclic position lists in a canonical rotation.
static std::vector<std::vector<V3>> loops(const View &v) {
    std::vector<std::vector<V3>> r;
    for (const auto &h : v.holes) {
        std::vector<V3> l;
        for (int i : h) l.push_back(v.s.P[(size_t)i]);
        std::rotate(l.begin(), std::min_element(l.begin(), l.end()), l.end());
        r.push_back(l);
    }
    std::sort(r.begin(), r.end());
    return r;
}

static void common(Case &c, const View &before, const tm::Mesh &m, int target) {
    requireValid(c, m, "after simplification");
    const View after = viewOf(m);
    const Topo a = topology(before.s), b = topology(after.s);
    c.require(a.euler() == b.euler() && a.components == b.components && a.loops.size() == b.loops.size(),
              "topology changed: chi %d -> %d, components %d -> %d, loops %zu -> %zu", a.euler(), b.euler(), a.components, b.components, a.loops.size(), b.loops.size());
    const int f0 = (int)(before.s.F.size() + before.holes.size()), f1 = (int)m.numFaces();
    c.require(f1 <= f0, "faces increased from %d to %d", f0, f1);
    c.require(f1 >= f0 || f1 >= target - 1, "%d faces left, target %d", f1, target);
    c.require(allFinite(m), "a position is not finite");
    c.require(loops(before) == loops(after), "the boundary changed");
}

// Shape with few vertices of degree above four, on which hardly any edge can be contracted.
static Surf stubborn(Case &c) {
    Surf s;
    switch (c.g.pick(5)) {
    case 0: s = tetrahedron(); break;
    case 1: s = bipyramid((int)c.g.integer(3, 8)); break;
    case 2: s = planeGrid((int)c.g.integer(1, 3), (int)c.g.integer(1, 2), (unsigned)c.g.integer(0, 63)); break;
    case 3: {
        s = tetrahedron();
        for (int k = (int)c.g.integer(1, 6); k > 0; k--) splitFace(s, c.g.pick((int)s.F.size()), 0.3);
        break;
    }
    default: s = disc((int)c.g.integer(3, 8));
    }
    for (V3 &p : s.P) p += V3(c.g.real(-1, 1), c.g.real(-1, 1), c.g.real(-1, 1)) * 0.15;
    return s;
}

static int wantsFlip(const Adjacency &ad, const Surf &s, int a, int b) {
    auto d = [&](int v) { return (int)ad.nb[(size_t)v].size(); };
    auto f = ad.face.find(Edge(a, b)), g = ad.face.find(Edge(b, a));
    if (f == ad.face.end() || g == ad.face.end()) return 0;
    const int x = other(s.F[(size_t)f->second], a, b), y = other(s.F[(size_t)g->second], a, b);
    const int now = std::abs(d(a) - 6) + std::abs(d(b) - 6) + std::abs(d(x) - 6) + std::abs(d(y) - 6);
    const int then = std::abs(d(a) - 7) + std::abs(d(b) - 7) + std::abs(d(x) - 5) + std::abs(d(y) - 5);
    return now > then;
}

// Flips every edge that is wanted flipped, if in whatever order that leads to the same end; otherwise the case is not judged.
static int settle(Surf &s) {
    const auto wanted = [](const Surf &w) {
        const Adjacency ad(w);
        std::set<Edge> r;
        for (const auto &x : ad.face)
            if (x.first.first < x.first.second && wantsFlip(ad, w, x.first.first, x.first.second)) r.insert(x.first);
        return r;
    };
    const std::set<Edge> all = wanted(s);
    if (all.size() > 3) throw Discard();
    const std::vector<Edge> list(all.begin(), all.end());
    const Adjacency as(s);
    std::set<int> faces;
    for (const Edge &e : list)
        if (!faces.insert(as.face.at(e)).second || !faces.insert(as.face.at(Edge(e.second, e.first))).second) throw Discard();
    Surf last = s;
    for (unsigned mask = 1; mask < 1u << list.size(); mask++) {
        Surf w = s;
        std::set<Edge> rest;
        for (size_t i = 0; i < list.size(); i++) {
            if (!(mask >> i & 1)) {
                rest.insert(list[i]);
                continue;
            }
            const Adjacency ad(w);
            if (ad.nb[(size_t)list[i].first].size() <= 4 || ad.nb[(size_t)list[i].second].size() <= 4) throw Discard();
            const int f = ad.face.at(list[i]);
            int k = 0;
            while (w.F[(size_t)f][(size_t)k] != list[i].first) k++;
            if (!flipEdge(w, f, k)) throw Discard();
        }
        if (wanted(w) != rest) throw Discard();
        last = w;
    }
    s = last;
    return (int)list.size();
}

struct Quadric {
    LD q[4][4] = {};
    void plane(const L3 &n, LD d) {
        const LD v[4] = { n.x, n.y, n.z, d };
        for (int i = 0; i < 4; i++)
            for (int j = 0; j < 4; j++) q[i][j] += v[i] * v[j];
    }
    LD det() const {
        return q[0][0] * (q[1][1] * q[2][2] - q[1][2] * q[2][1]) - q[0][1] * (q[1][0] * q[2][2] - q[1][2] * q[2][0]) +
               q[0][2] * (q[1][0] * q[2][1] - q[1][1] * q[2][0]);
    }
    L3 minimiser() const {
        const LD D = det();
        auto sub = [&](int k) {
            LD m[3][3];
            for (int i = 0; i < 3; i++)
                for (int j = 0; j < 3; j++) m[i][j] = j == k ? -q[i][3] : q[i][j];
            return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
                   m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
        };
        return L3(V3((double)(sub(0) / D), (double)(sub(1) / D), (double)(sub(2) / D)));
    }
    LD cost(const L3 &p) const {
        const LD v[4] = { p.x, p.y, p.z, 1 };
        LD s = 0;
        for (int i = 0; i < 4; i++)
            for (int j = 0; j < 4; j++) s += v[i] * q[i][j] * v[j];
        return s;
    }
};

// One contraction: the cheapest edge that can be contracted goes to the point of least quadric error.
static void oneContraction(Case &c) {
    Surf s;
    if (c.g.chance(0.5)) {
        s = torus((int)c.g.integer(5, 9), (int)c.g.integer(5, 9), c.g.real(0.2, 0.6), (unsigned)c.g.integer(0, 1) * ~0u);
    } else {
        s = c.g.chance(0.5) ? subdivide(icosahedron(), true) : subdivide(cube(1), true);
        const double flat = c.g.chance(0.5) ? 1.0 : c.g.logReal(0.02, 1);
        const V3 stretch(c.g.real(0.5, 2), c.g.real(0.5, 2), c.g.real(0.5, 2) * flat);
        for (V3 &p : s.P) p = V3(p.x * stretch.x, p.y * stretch.y, p.z * stretch.z);
    }
    const double h = meanEdge(s) * (c.g.chance(0.5) ? c.g.real(0.05, 0.3) : c.g.logReal(0.002, 0.3));
    for (V3 &p : s.P) p += V3(c.g.real(-1, 1), c.g.real(-1, 1), c.g.real(-1, 1)) * h;
    for (int k = (int)c.g.integer(0, 12); k > 0; k--) flipEdge(s, c.g.pick((int)s.F.size()), c.g.pick(3));
    // Even out the degrees so that the flips of the simplification have little to do
    for (int pass = 0; pass < 40; pass++) {
        const Adjacency ad(s);
        bool any = false;
        for (size_t f = 0; f < s.F.size() && !any; f++)
            for (int k = 0; k < 3 && !any; k++)
                if (wantsFlip(ad, s, s.F[f][(size_t)k], s.F[f][(size_t)((k + 1) % 3)])) any = flipEdge(s, (int)f, k);
        if (!any) break;
    }
    if (c.g.chance(0.4)) flipEdge(s, c.g.pick((int)s.F.size()), c.g.pick(3));
    const double size = c.g.chance(0.5) ? 1.0 : c.g.logReal(0.1, 100);
    for (V3 &p : s.P) p = p * size;
    permute(c.g, s);
    if (!distinctPositions(s)) throw Discard();

    tm::Mesh m = toMesh(s), r = toMesh(s);
    tm::smoothLaplacian(r);
    const Surf t = surfOf(r);
    const Adjacency ad(t);
    double far = 0;
    for (const V3 &p : t.P) far = std::max(far, norm(p));
    const double D = t.diameter();

    std::vector<Quadric> Q(t.P.size());
    for (const Tri &f : t.F) {
        const L3 p(t.P[(size_t)f[0]]);
        L3 n = cross(L3(t.P[(size_t)f[1]]) - p, L3(t.P[(size_t)f[2]]) - p);
        n = n * (1 / norm(n));
        for (int v : f) Q[(size_t)v].plane(n, -dot(n, p));
    }
    struct Cand {
        LD cost;
        int a, b;
        L3 p;
    };
    std::vector<Cand> cand;
    for (const auto &e : ad.face) {
        const int a = e.first.first, b = e.first.second;
        if (a > b) continue;
        Quadric q = Q[(size_t)a];
        for (int i = 0; i < 4; i++)
            for (int j = 0; j < 4; j++) q.q[i][j] += Q[(size_t)b].q[i][j];
        const LD det = q.det();
        if (det > 1e-9L && det < 1e-6L) throw Discard();
        const L3 p = det < 1e-8L ? (L3(t.P[(size_t)a]) + L3(t.P[(size_t)b])) * 0.5L : q.minimiser();
        cand.push_back({ q.cost(p), a, b, p });
    }
    std::sort(cand.begin(), cand.end(), [](const Cand &x, const Cand &y) { return x.cost < y.cost; });
    auto degree = [&](int v) { return (int)ad.nb[(size_t)v].size(); };
    int chosen = -1;
    for (size_t k = 0; k < cand.size() && chosen < 0; k++) {
        const Cand &e = cand[k];
        if (k + 1 < cand.size() && !(cand[k + 1].cost - e.cost > 1e-10L * far * far)) throw Discard();
        if (degree(e.a) <= 3 || degree(e.b) <= 3) continue;
        bool turned = false, low = false;
        V3 na, nb;
        for (int end : { e.a, e.b }) {
            for (auto &fk : ad.tri[(size_t)end]) {
                const Tri &f = t.F[(size_t)fk.first];
                bool both = false;
                L3 x[3], y[3];
                for (int i = 0; i < 3; i++) {
                    both = both || f[(size_t)i] == (end == e.a ? e.b : e.a);
                    x[i] = y[i] = L3(t.P[(size_t)f[(size_t)i]]);
                    if (f[(size_t)i] == end) y[i] = e.p;
                }
                if (both) continue;
                const L3 n0 = cross(x[1] - x[0], x[2] - x[0]), n1 = cross(y[1] - y[0], y[2] - y[0]);
                const LD cs = dot(n0, n1) / (norm(n0) * norm(n1));
                if (fabsl(cs) < 0.05L) throw Discard();
                turned = turned || cs < 0;
                const L3 u = n1;
                (end == e.a ? na : nb) += V3((double)u.x, (double)u.y, (double)u.z);
            }
        }
        if (turned) {
            c.label("cheapest edge would turn a triangle over");
            continue;
        }
        // The edit itself must be possible beyond doubt
        const int o1 = other(t.F[(size_t)ad.face.at(Edge(e.a, e.b))], e.a, e.b), o2 = other(t.F[(size_t)ad.face.at(Edge(e.b, e.a))], e.a, e.b);
        int shared = 0;
        for (int v : ad.nb[(size_t)e.a]) shared += (int)ad.nb[(size_t)e.b].count(v);
        if (shared != 2) throw Discard();
        low = degree(o1) <= 4 || degree(o2) <= 4;
        if (low) throw Discard();
        for (int end : { e.a, e.b }) {
            for (auto &fk : ad.tri[(size_t)end]) {
                const Tri &f = t.F[(size_t)fk.first];
                L3 y[3];
                bool both = false;
                for (int i = 0; i < 3; i++) {
                    both = both || f[(size_t)i] == (end == e.a ? e.b : e.a);
                    y[i] = f[(size_t)i] == end ? e.p : L3(t.P[(size_t)f[(size_t)i]]);
                }
                if (both) continue;
                const L3 n = cross(y[1] - y[0], y[2] - y[0]);
                if (dot(n, L3(end == e.a ? na : nb)) < 0.1L * norm(n) * norm(end == e.a ? na : nb)) throw Discard();
            }
        }
        chosen = (int)k;
    }
    if (chosen < 0) throw Discard();
    if (chosen > 0) c.label("not the cheapest edge");
    const Cand &e = cand[(size_t)chosen];
    c.label(degree(e.a) == degree(e.b) ? "ends of equal degree" : "ends of different degree");

    // Expected: contract in the model, then the same smoothing
    Surf w = t;
    w.P[(size_t)e.a] = w.P[(size_t)e.b] = V3((double)e.p.x, (double)e.p.y, (double)e.p.z);
    std::vector<Tri> F;
    for (Tri f : w.F) {
        int hit = 0;
        for (int &v : f) {
            hit += v == e.a || v == e.b;
            if (v == e.b) v = e.a;
        }
        if (hit < 2) F.push_back(f);
    }
    w.F = F;
    for (Tri &f : w.F)
        for (int &v : f)
            if (v > e.b) v--;
    w.P.erase(w.P.begin() + e.b);
    const int flips = settle(w);
    if (flips) c.label(flips > 1 ? "several flips" : "one flip");
    if (!distinctPositions(w)) throw Discard();
    tm::Mesh expect = toMesh(w);
    tm::smoothTaubin(expect);
    const Surf want = surfOf(expect);

    const int target = (int)m.numFaces() - (int)c.g.integer(1, 2);
    c.describe("one contraction, %zu faces, cost %.3g", s.F.size(), (double)e.cost);
    c.require(simplify(m, target, (int)c.g.integer(1, 10), c.g.chance(0.2)), "simplification by one edge failed");
    requireValid(c, m, "after one contraction");
    const Surf got = surfOf(m);
    c.require(got.F.size() + 2 == s.F.size(), "%zu faces left of %zu, target %d", got.F.size(), s.F.size(), target);
    std::vector<int> match(got.P.size());
    double worst = 0;
    for (size_t i = 0; i < got.P.size(); i++) {
        double best = 1e300;
        for (size_t j = 0; j < want.P.size(); j++) {
            const double d = norm(got.P[i] - want.P[j]);
            if (d < best) best = d, match[i] = (int)j;
        }
        worst = std::max(worst, best);
    }
    c.require(worst <= 1e-6 * D, "a vertex is %.3g away from where the contraction of the cheapest edge puts it (size %.3g)", worst, D);
    Surf named = want;
    named.F = got.F;
    for (Tri &f : named.F)
        for (int &v : f) v = match[(size_t)v];
    c.require(indexSet(named) == indexSet(want), "another edge than the cheapest was contracted, or edges were flipped otherwise than to even out degrees");
    c.nontrivial = true;
    c.label("one contraction");
}

// One contraction of a flat surface: all edges cost nothing, so any of them may go, but only to its middle.
static void flatContraction(Case &c) {
    // A torus pressed flat: of its two layers, each edge may go without calling for flips
    const int n = (int)c.g.integer(6, 10), k = (int)c.g.integer(6, 10);
    Surf s = torus(n, k, 0.5, (unsigned)c.g.integer(0, 1) * ~0u);
    const double h = meanEdge(s) * c.g.real(0.01, 0.2);
    for (V3 &p : s.P) p = V3(p.x + 0.1 * p.z + c.g.real(-1, 1) * h, p.y + c.g.real(-1, 1) * h, 0);
    const double size = c.g.logReal(0.1, 100), tilt = c.g.real(0, 6.28);
    for (V3 &p : s.P) p = V3(p.x * std::cos(tilt) - p.y * std::sin(tilt), p.x * std::sin(tilt) + p.y * std::cos(tilt), 0.3) * size;
    switch (c.g.pick(3)) {
    case 0: break;
    case 1:
        for (V3 &p : s.P) p = V3(p.y, p.z, p.x);
        break;
    default:
        for (V3 &p : s.P) p = V3(p.x * 0.6 - p.z * 0.8, p.y, p.x * 0.8 + p.z * 0.6);
    }
    permute(c.g, s);
    if (!distinctPositions(s)) throw Discard();
    tm::Mesh m = toMesh(s), r = toMesh(s);
    tm::smoothLaplacian(r);
    const Surf t = surfOf(r);
    const Adjacency ad(t);
    for (const auto &x : ad.face)
        if (wantsFlip(ad, t, x.first.first, x.first.second)) throw Discard();
    const double D = t.diameter();
    const int target = (int)m.numFaces() - (int)c.g.integer(1, 2);
    c.describe("one contraction of a flat surface with %zu faces", s.F.size());
    c.require(simplify(m, target, (int)c.g.integer(1, 10), false), "simplification by one edge failed");
    requireValid(c, m, "after one contraction");
    const Surf got = surfOf(m);
    if (got.F.size() == s.F.size()) throw Discard();  // every contraction would turn a triangle over
    c.require(got.F.size() + 2 == s.F.size(), "%zu faces left of %zu, target %d", got.F.size(), s.F.size(), target);
    bool judged = true;
    for (const auto &x : ad.face) {
        const int a = x.first.first, b = x.first.second;
        if (a > b || ad.boundary[(size_t)a] || ad.boundary[(size_t)b]) continue;
        Surf w = t;
        w.P[(size_t)a] = (t.P[(size_t)a] + t.P[(size_t)b]) * 0.5;
        std::vector<Tri> F;
        for (Tri f : w.F) {
            int hit = 0;
            for (int &v : f) {
                hit += v == a || v == b;
                if (v == b) v = a;
            }
            for (int &v : f)
                if (v > b) v--;
            if (hit < 2) F.push_back(f);
        }
        w.F = F;
        w.P.erase(w.P.begin() + b);
        const Adjacency aw(w);
        bool flips = false;
        for (const auto &y : aw.face) flips = flips || wantsFlip(aw, w, y.first.first, y.first.second);
        if (flips || !distinctPositions(w)) {
            judged = false;
            continue;
        }
        tm::Mesh expect = toMesh(w);
        tm::smoothTaubin(expect);
        const Surf want = surfOf(expect);
        double worst = 0;
        for (const V3 &p : got.P) {
            double best = 1e300;
            for (const V3 &q : want.P) best = std::min(best, norm(p - q));
            worst = std::max(worst, best);
            if (worst > 1e-6 * D) break;
        }
        if (worst <= 1e-6 * D) {
            c.nontrivial = true;
            c.label("one flat contraction");
            return;
        }
    }
    if (!judged) throw Discard();
    c.fail("no edge of a flat surface was contracted to its middle (size %.3g)", D);
}

// Finely sampled smooth shapes: the target is met and the shape is kept.
static void smoothShape(Case &c) {
    Surf s;
    const int kind = c.g.pick(2);
    if (kind == 0) {
        s = subdivide(subdivide(icosahedron(), true), true);
        if (c.thorough && c.g.chance(0.3)) s = subdivide(s, true);
    } else {
        s = torus((int)c.g.integer(12, 20), (int)c.g.integer(8, 12), 0.4, (unsigned)c.g.integer(0, 1) * ~0u);
    }
    const double h = meanEdge(s) * 0.1;
    for (V3 &p : s.P) p += V3(c.g.real(-1, 1), c.g.real(-1, 1), c.g.real(-1, 1)) * h;
    const double size = c.g.logReal(0.1, 100);
    const V3 shift = V3(c.g.real(-1, 1), c.g.real(-1, 1), c.g.real(-1, 1)) * 3.0;
    for (V3 &p : s.P) p = (p + shift) * size;
    permute(c.g, s);
    tm::Mesh m = toMesh(s);
    const int f0 = (int)m.numFaces();
    // Rounds that remove something do not count as trials, so two are enough
    const int target = (int)c.g.integer(f0 * 3 / 10, c.g.chance(0.6) ? f0 * 7 / 20 : f0 - 1), trials = c.g.chance(0.7) ? 2 : (int)c.g.integer(2, 10);
    c.describe("%s with %d faces to %d in %d trials", kind ? "torus" : "sphere", f0, target, trials);
    const View before = viewOf(m);
    c.require(simplify(m, target, trials, c.g.chance(0.3)), "simplification failed");
    common(c, before, m, target);
    c.require((int)m.numFaces() <= target, "%d faces left of %d, target %d", (int)m.numFaces(), f0, target);
    // The result stays near the surface that the smoothing beforehand leaves
    tm::Mesh smoothed = toMesh(s);
    tm::smoothLaplacian(smoothed);
    const Surf t = surfOf(m), r = surfOf(smoothed);
    double worst = 0;
    for (const V3 &p : t.P) worst = std::max(worst, (double)surfaceDistance(p, r));
    worst /= meanEdge(t);
    c.describe(", off by %.3f edge lengths", worst);
    c.require(worst < 1.0, "a vertex ends %.3g mean edge lengths off the smoothed surface", worst);
    c.nontrivial = true;
    c.label("smooth shape");
}

static void general(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 500 : 200;
    o.nice = c.g.chance(0.6);
    const bool stub = c.g.chance(0.2);
    Surf s = stub ? stubborn(c) : randomSurface(c, o).s;
    if (!distinctPositions(s)) throw Discard();
    tm::Mesh m = toMesh(s);
    if (!stub && c.g.chance(0.3)) randomHistory(c, m, 20);
    if (stub) c.label("hardly contractible");
    const View before = viewOf(m);
    if (!distinctPositions(before.s)) throw Discard();  // could not be rebuilt for the comparisons below
    const int f0 = (int)m.numFaces();
    int target;
    switch (c.g.weighted({ 5, 2, 1, 1, 1 })) {
    case 0: target = (int)c.g.integer(1, f0); break;
    case 1: target = (int)c.g.integer(std::max(1, f0 - 8), f0); break;
    case 2: target = 1; break;
    case 3: target = f0 + (int)c.g.integer(0, 5); break;
    default: target = -(int)c.g.integer(0, 3) * (int)c.g.integer(0, 100);
    }
    const int trials = c.g.chance(0.4) ? 10 : (int)c.g.integer(0, 6);
    const bool verbose = c.g.chance(0.3);
    c.describe(", %d faces to %d in %d trials%s", f0, target, trials, verbose ? ", verbose" : "");
    Twin again(m);
    const bool ok = simplify(m, target, trials, verbose);
    if (target <= 0) {
        c.label("target not positive");
        c.require(!ok, "a target of %d was not rejected", target);
        return;
    }
    c.require(ok, "simplification reported an error");
    if (target >= f0) {
        c.label("nothing to do");
        c.require(viewOf(m).s.P == before.s.P && triangleSet(viewOf(m).s) == triangleSet(before.s), "a mesh already below the target was changed");
        return;
    }
    common(c, before, m, target);
    const View after = viewOf(m);
    if ((int)m.numFaces() < f0) c.nontrivial = true;
    if ((int)m.numFaces() <= target) c.label("target met");
    if (!before.holes.empty()) c.label("open");

    // Telling about the progress changes nothing
    tm::Mesh other = toMesh(before.s), other2 = toMesh(before.s);
    c.require(simplify(other, target, trials, false) && simplify(other2, target, trials, true), "simplification with other output reported an error");
    const Surf a = surfOf(other), b = surfOf(other2);
    c.require(a.P == b.P && a.F == b.F, "progress output changes the result");

    // Where nothing could be contracted or flipped, only the smoothing remains
    if (triangleSet(after.s).size() == before.s.F.size() && indexSet(after.s) == indexSet(before.s) && after.s.P.size() == before.s.P.size()) {
        tm::smoothLaplacian(again.m);
        for (int i = 0; i < trials; i++) tm::smoothTaubin(again.m);
        double far = 0, d = 0;
        for (size_t i = 0; i < after.s.P.size(); i++) {
            far = std::max(far, norm(before.s.P[i]));
            d = std::max(d, norm(again.pos(i) - after.s.P[i]));
        }
        c.require(d <= 1e-9 * far, "nothing was contracted, but a vertex is %.3g away from where smoothing alone puts it (size %.3g)", d, before.s.diameter());
        c.label("nothing contracted");
        c.nontrivial = true;
    }
}

static void prop(Case &c) {
    switch (c.g.weighted({ 12, 8, 1, 2 })) {
    case 0: general(c); break;
    case 1: oneContraction(c); break;
    case 3: flatContraction(c); break;
    default: smoothShape(c);
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P09";
    cfg.rule = "random manifolds with edit histories, shapes that allow hardly any contraction, smooth spheres and tori, random targets and trial "
               "counts; non-trivial: faces were removed, or nothing could be contracted and the smoothing is compared, or one contraction is compared";
    cfg.prop = prop;
    cfg.quickCases = 12000;
    cfg.thoroughCases = 120000;
    cfg.assumptions = { "faces are counted as the mesh counts them, holes included",
                        "single contractions are compared on closed meshes only, when no other edge costs nearly the same" };
    return pbt::run(cfg, argc, argv);
}
