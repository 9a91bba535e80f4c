// P22: distances between meshes equal exhaustive computation.
#include "ops/ops.h"
#include "bridge.h"
#include "geom.h"
using namespace ref;

static double worstCondition(const Surf &s) {
    double w = 1;
    for (const Tri &f : s.F) w = std::max(w, triangleCondition(s.P[(size_t)f[0]], s.P[(size_t)f[1]], s.P[(size_t)f[2]]));
    return w;
}

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 260 : 120;
    o.transform = false;
    Made a = randomSurface(c, o);
    Surf A = a.s, B;
    const int rel = c.g.weighted({ 3, 2, 1, 2 });
    if (rel == 0) {
        Made b = randomSurface(c, o);
        B = b.s;
        if (c.g.chance(0.6)) {
            const V3 t = V3(c.g.real(-1, 1), c.g.real(-1, 1), c.g.real(-1, 1)) * (2 * A.diameter());
            for (V3 &p : B.P) p = p + t;
        }
        c.label("two surfaces");
    } else if (rel == 1) {
        B = A;
        pbt::Noise z(c.g.seedChoice());
        const double h = meanEdge(A) * c.g.real(0, 0.3);
        for (V3 &p : B.P) p = p + V3(z.sym(), z.sym(), z.sym()) * h;
        c.label("perturbed copy");
    } else if (rel == 2) {
        B = A;
        c.label("identical");
    } else {
        // One large feature on one side only: the two directions differ
        B = A;
        const size_t k = (size_t)c.g.pick((int)B.P.size());
        B.P[k] = B.P[k] + randomDirection(c.g) * (A.diameter() * c.g.real(0.1, 2));
        c.label("one vertex moved");
    }
    const double k = c.g.chance(0.4) ? c.g.logReal(1e-3, 1e3) : 1.0;
    const Mat3 R = rotation(randomDirection(c.g), c.g.real(0, 3));
    for (V3 &p : A.P) p = (R * p) * k;
    for (V3 &p : B.P) p = (R * p) * k;
    if (!distinctPositions(A) || !distinctPositions(B) || !(worstCondition(A) < 1e3) || !(worstCondition(B) < 1e3)) throw Discard();
    c.describe("%s vs %zu triangles", a.text.c_str(), B.F.size());

    const tm::Mesh ma = toMesh(A), mb = toMesh(B);
    const Surf va = surfOf(ma), vb = surfOf(mb);
    const double size = A.diameter() + B.diameter() + norm(A.P[0] - B.P[0]) + norm(A.P[0]);
    const double cm = std::max(worstCondition(A), worstCondition(B));
    double edge = 1e300;
    for (const Tri &f : A.F) edge = std::min(edge, norm(A.P[(size_t)f[0]] - A.P[(size_t)f[1]]));
    double tol = 1e-13 * cm * cm * size + 1e-13 * size;
    double h[2] = { 0, 0 };
    for (int dir = 0; dir < 2; dir++) {
        const Surf &s = dir ? vb : va, &d = dir ? va : vb;
        const EigenVector v = dir ? tm::getPerVertexShortestDistances(mb, ma) : tm::getPerVertexShortestDistances(ma, mb);
        c.require((size_t)v.size() == s.P.size(), "%ld distances for %zu vertices", (long)v.size(), s.P.size());
        for (size_t i = 0; i < s.P.size(); i++) {
            const double want = (double)surfaceDistance(s.P[i], d);
            h[dir] = std::max(h[dir], want);
            c.require(std::fabs(v((long)i) - want) <= tol * (1 + want / size), "vertex %zu: distance %.17g instead of %.17g", i, v((long)i), want);
        }
    }
    const double want = std::max(h[0], h[1]);
    const double ab = tm::getHausdorffDistance(ma, mb), ba = tm::getHausdorffDistance(mb, ma);
    c.require(std::fabs(ab - want) <= tol, "Hausdorff distance %.17g instead of %.17g", ab, want);
    c.require(std::fabs(ba - want) <= tol, "Hausdorff distance is not symmetric: %.17g and %.17g", ab, ba);
    if (std::fabs(h[0] - h[1]) > 0.05 * want) c.label("directions differ");
    if (rel == 2) c.require(ab <= tol, "a mesh is at distance %.3g from itself", ab);
    const double self = tm::getHausdorffDistance(ma, ma);
    c.require(self <= tol, "a mesh is at distance %.3g from itself", self);
    c.nontrivial = want > 1e-6 * size;
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P22";
    cfg.rule = "pairs of random meshes: unrelated, perturbed, identical, and with one vertex pulled out; non-trivial: distance clearly above zero";
    cfg.prop = prop;
    cfg.quickCases = 16000;
    cfg.thoroughCases = 120000;
    cfg.assumptions = { "triangles whose longest side squared is at most 10^3 times twice their area" };
    return pbt::run(cfg, argc, argv);
}
