// P10: remeshing keeps a valid surface and pins its feature vertices.
#include <fcntl.h>
#include <unistd.h>

#include <random>

#include "filters/filters.h"
#include "remesh/remesh.h"
#include "discrete.h"
#include "edits.h"
using namespace ref;

// The library seeds its shuffles from std::random_device; here the numbers come from the case.
static uint64_t deviceState = 1;
namespace std {
void random_device::_M_init(const std::string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
    deviceState = deviceState * 6364136223846793005ull + 1442695040888963407ull;
    return (result_type)(deviceState >> 32);
}
}  // namespace std

struct Quiet {
    int keep;
    Quiet() {
        fflush(stdout);
        std::cout.flush();
        keep = dup(1);
        const int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        close(null);
    }
    ~Quiet() {
        fflush(stdout);
        std::cout.flush();
        dup2(keep, 1);
        close(keep);
    }
};

static double sharpest(const Surf &s, const Adjacency &ad, int v) {
    double m = 10;
    for (int j : ad.nb[(size_t)v]) {
        const Tri &f = s.F[(size_t)ad.face.at(Edge(v, j))], &g = s.F[(size_t)ad.face.at(Edge(j, v))];
        const V3 p = s.P[(size_t)v], e = unit(s.P[(size_t)j] - p);
        V3 x = s.P[(size_t)other(f, v, j)] - p, y = s.P[(size_t)other(g, v, j)] - p;
        x = x - e * dot(x, e);
        y = y - e * dot(y, e);
        m = std::min(m, std::atan2(norm(cross(x, y)), dot(x, y)));
    }
    return m;
}

static int target(const Adjacency &ad, int v) { return ad.boundary[(size_t)v] ? 4 : 6; }
static long unevenness(const Surf &s) {
    const Adjacency ad(s);
    long e = 0;
    for (size_t v = 0; v < s.P.size(); v++) e += std::abs((int)ad.nb[v].size() - target(ad, (int)v));
    return e;
}

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 300 : 150;
    o.nice = c.g.chance(0.7);
    Made made = randomSurface(c, o);
    if (!distinctPositions(made.s)) throw Discard();
    tm::Mesh m = toMesh(made.s);
    if (c.g.chance(0.3)) randomHistory(c, m, 15);
    const View before = viewOf(m);
    const Surf &s = before.s;
    if (!distinctPositions(s) || !(minAngle(s) > 1e-4)) throw Discard();
    const Adjacency ad(s);
    const Topo t0 = topology(s);
    const int n = (int)s.P.size();

    const int locks = c.g.weighted({ 4, 2, 1, 1 });
    std::vector<char> pinned((size_t)n, 0);
    for (int i = 0; i < n && locks; i++) {
        if (locks == 3 || c.g.chance(locks == 1 ? 0.15 : 0.7)) {
            m.vertex(i)->lock();
            pinned[(size_t)i] = 1;
        }
    }
    const double inf = 1e30;
    const int mode = c.g.weighted({ 6, 2, 2, 2 });
    static const char *modes[] = { "everything", "splits only", "collapses only", "flips only" };
    double shortR = c.g.chance(0.4) ? 0.8 : c.g.real(0, 1.3), longR = c.g.chance(0.4) ? 1.333 : c.g.real(0.9, 2.5);
    if (mode == 1 || mode == 3) shortR = -1;  // not even coinciding vertices
    if (mode == 2 || mode == 3) longR = inf;
    const double angle = c.g.chance(0.4) ? 0.0 : c.g.chance(0.1) ? 4.0 : c.g.real(0, M_PI);
    const int iterations = mode == 0 ? (int)c.g.integer(0, c.thorough ? 6 : 4) : (int)c.g.integer(1, 2);
    const bool verbose = c.g.chance(0.1);
    deviceState = (uint64_t)c.g.integer(1, 1000000);
    c.label(modes[mode]);
    c.describe(", %s, short %.4g, long %.4g, angle %.4g, %d iterations, locks %d, seed %llu", modes[mode], shortR, longR, angle, iterations, locks,
               (unsigned long long)deviceState);

    // Which interior vertices lie on an edge sharper than the angle?
    int features = 0;
    bool unsure = false;
    for (int i = 0; i < n; i++) {
        if (ad.boundary[(size_t)i]) {
            unsure = unsure || angle > 0;  // no claim for these
            continue;
        }
        const double d = sharpest(s, ad, i);
        if (d < angle - 1e-6) features += !pinned[(size_t)i], pinned[(size_t)i] = 1;
        else if (d < angle + 1e-6) unsure = true;
    }
    if (features) c.label("features");
    if (locks) c.label("locks");

    // What the first pass has to do
    double avg = 0;
    int edges = 0;
    for (const auto &e : ad.face) {
        const int a = e.first.first, b = e.first.second;
        if (a > b && ad.face.count(Edge(b, a))) continue;
        avg += norm(s.P[(size_t)a] - s.P[(size_t)b]);
        edges++;
    }
    avg /= edges;
    int longEdges = 0;
    double longest = 0;
    bool closeCall = false;
    for (const auto &e : ad.face) {
        const int a = e.first.first, b = e.first.second;
        const double l = norm(s.P[(size_t)a] - s.P[(size_t)b]);
        longest = std::max(longest, l);
        if (std::fabs(l - longR * avg) < 1e-9 * avg || std::fabs(l - shortR * avg) < 1e-9 * avg || std::fabs(l - 2 * longR * avg) < 1e-9 * avg) closeCall = true;
        if (a < b && ad.face.count(Edge(b, a)) && l >= longR * avg) longEdges++;
    }
    if (mode == 2 && iterations == 1 && c.g.chance(0.6)) {
        // Longer than every edge, but not than those that a collapse might make
        longR = longest / avg * (1 + c.g.logReal(1e-4, 0.3));
        c.describe(", long %.6g", longR);
        c.label("collapses may make long edges");
    }
    auto lockedEnd = [&](const tm::Halfedge *he) { return pinned[(size_t)he->src()->index()] || pinned[(size_t)he->dst()->index()]; };
    auto lockedFaces = [&](const tm::Halfedge *he) {
        bool l = lockedEnd(he);
        l = l || pinned[(size_t)he->next()->dst()->index()] || pinned[(size_t)he->rev()->next()->dst()->index()];
        return l;
    };
    bool collapsible = false, flippable = false;
    if ((mode == 2 || mode == 3) && !unsure) {
        const int H = (int)m.numHalfedges();
        for (int i = 0; i < H && !collapsible && !flippable; i++) {
            const tm::Halfedge *he = m.halfedge(i);
            if (he->face()->isHole() || he->rev()->face()->isHole() || lockedFaces(he)) continue;
            const int a = he->src()->index(), b = he->dst()->index();
            if (mode == 2) {
                if (he->length() > shortR * avg) continue;
                Twin k(m);
                if (!k.m.collapseHE(k.edge(a, b))) continue;
                double most = 0;
                for (int j = 0; j < (int)k.m.numHalfedges(); j++) most = std::max(most, k.m.halfedge(j)->length());
                closeCall = closeCall || std::fabs(most - longR * avg) < 1e-9 * avg;
                collapsible = most < longR * avg;
                if (!collapsible) c.label("refused for a long edge");
            } else {
                if (he->face()->isBoundary() || he->rev()->face()->isBoundary()) continue;
                const int x = he->next()->dst()->index(), y = he->rev()->next()->dst()->index();
                auto gap = [&](int v, int change) { return std::abs((int)ad.nb[(size_t)v].size() + change - target(ad, v)); };
                if (gap(a, 0) + gap(b, 0) + gap(x, 0) + gap(y, 0) <= gap(a, -1) + gap(b, -1) + gap(x, 1) + gap(y, 1)) continue;
                Twin k(m);
                flippable = k.m.flipHE(k.edge(a, b));
            }
        }
    }
    Twin smoothed(m);

    try {
        Quiet q;
        tm::remeshTriangular(m, shortR, longR, angle, iterations, verbose);
    } catch (const std::exception &e) {
        c.fail("remeshing failed: %s", e.what());
    }

    requireValid(c, m, "after remeshing");
    const View after = viewOf(m);
    const Topo t1 = topology(after.s);
    c.require(t0.euler() == t1.euler() && t0.components == t1.components && t0.loops.size() == t1.loops.size(),
              "topology changed: chi %d -> %d, components %d -> %d, loops %zu -> %zu", t0.euler(), t1.euler(), t0.components, t1.components, t0.loops.size(),
              t1.loops.size());
    c.require(allFinite(m), "a position is not finite");
    std::map<V3, int> where;
    for (size_t i = 0; i < after.s.P.size(); i++) where[after.s.P[i]] = (int)i;
    for (int i = 0; i < n; i++) {
        if (!pinned[(size_t)i]) continue;
        auto it = where.find(s.P[(size_t)i]);
        c.require(it != where.end(), "%s vertex at %s is gone", m.numVertices() ? "pinned" : "", show(s.P[(size_t)i]).c_str());
    }
    const int V1 = (int)m.numVertices(), F0 = (int)s.F.size(), F1 = (int)after.s.F.size();
    if (iterations == 0) {
        c.require(after.s.P == s.P && after.s.F == s.F, "no iteration, but the mesh changed");
        return;
    }
    const bool same = F1 == F0 && V1 == n && indexSet(after.s) == indexSet(s);
    if (mode == 1) {
        c.require(V1 >= n, "vertices were removed although only splits are possible");
        if (iterations == 1 && !closeCall && longest < 2 * longR * avg)
            c.require(V1 == n + longEdges, "%d edges were split, %d interior edges are longer than %.3g", V1 - n, longEdges, longR * avg);
        else if (iterations == 1 && !closeCall)
            c.require(V1 >= n + longEdges, "%d edges were split, %d interior edges are longer than %.3g", V1 - n, longEdges, longR * avg);
    }
    if (mode == 2) {
        c.require(V1 <= n, "vertices were added although only collapses are possible");
        if (iterations == 1 && !closeCall && !unsure)
            c.require((V1 < n) == collapsible, "%d of %d vertices left; an edge shorter than %.3g %s be collapsed", V1, n, shortR * avg, collapsible ? "can" : "cannot");
        if (V1 < n) c.label("collapsed");
    }
    if (mode == 3) {
        c.require(V1 == n && F1 == F0, "neither splits nor collapses are possible, but %d vertices became %d and %d faces %d", n, V1, F0, F1);
        c.require(unevenness(after.s) <= unevenness(s), "flips made the degrees less even: %ld -> %ld", unevenness(s), unevenness(after.s));
        if (iterations == 1 && !unsure) {
            c.require(same == !flippable, "an edge %s be flipped with profit, but the triangles %s", flippable ? "can" : "cannot", same ? "are the same" : "changed");
            if (same && features == 0) {
                tm::smoothTaubin(smoothed.m);
                double d = 0;
                for (int i = 0; i < n; i++) d = std::max(d, norm(smoothed.pos((size_t)i) - after.s.P[(size_t)i]));
                double far = 0;
                for (const V3 &p : s.P) far = std::max(far, norm(p));
                c.require(d <= 1e-9 * far, "nothing was changed, but a vertex is %.3g away from where smoothing puts it", d);
            }
        }
        if (!same) c.label("flipped");
    }
    bool all = true;
    for (int i = 0; i < n; i++) all = all && pinned[(size_t)i];
    if (all && mode >= 2) c.require(after.s.P == s.P && same, "every vertex is pinned, but the mesh changed");
    if (!same) c.nontrivial = true;
    if (V1 > n) c.label("refined");
    if (!before.holes.empty()) c.label("open");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P10";
    cfg.rule = "random manifolds with edit histories, locks, ratios, feature angles, iteration counts and shuffle seeds; "
               "non-trivial: the connectivity changed";
    cfg.prop = prop;
    cfg.quickCases = 20000;
    cfg.thoroughCases = 250000;
    cfg.isolate = true;
    cfg.assumptions = { "vertices have distinct positions, no angle below 1e-4 rad", "feature angles are claimed for interior vertices" };
    return pbt::run(cfg, argc, argv);
}
