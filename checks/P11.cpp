// P11: explicit smoothing moves exactly the free vertices by the umbrella rule.
#include "filters/filters.h"
#include "discrete.h"
#include "edits.h"
using namespace ref;

// One simultaneous step in extended precision; returns false if the weights are too ill-conditioned to compare.
static bool step(std::vector<L3> &P, const Surf &shape, const Adjacency &ad, const std::vector<char> &fixed, bool cotangent, double eps, double &cond) {
    Surf s = shape;
    for (size_t i = 0; i < P.size(); i++) s.P[i] = V3((double)P[i].x, (double)P[i].y, (double)P[i].z);
    if (cotangent && !(minAngle(s) > 0.02)) return false;
    std::vector<L3> Q = P;
    for (size_t i = 0; i < P.size(); i++) {
        if (fixed[i]) continue;
        L3 sum;
        LD w = 0, mag = 0;
        for (int j : ad.nb[i]) {
            const LD x = cotangent ? cotWeight(s, ad, (int)i, j) : 1.0L;
            sum = sum + P[(size_t)j] * x;
            w += x;
            mag += fabsl(x);
        }
        if (!(w > 1e-3L * mag)) return false;
        cond = std::max(cond, (double)(mag / w));
        Q[i] = P[i] + (sum * (1 / w) - P[i]) * (LD)eps;
    }
    P = Q;
    return true;
}

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 300 : 140;
    o.nice = c.g.chance(0.6);
    Made made = randomSurface(c, o);
    tm::Mesh m = toMesh(made.s);
    if (c.g.chance(0.2)) randomHistory(c, m, 12);
    const View before = viewOf(m);
    const Surf &s = before.s;
    const Adjacency ad(s);
    const int n = (int)s.P.size();

    std::vector<char> fixed(ad.boundary);
    const int locks = c.g.weighted({ 2, 2, 1 });
    int locked = 0;
    for (int i = 0; i < n && locks; i++) {
        if (c.g.chance(locks == 1 ? 0.2 : 0.8)) {
            m.vertex(i)->lock();
            fixed[(size_t)i] = 1;
            locked++;
        }
    }
    if (locked && c.g.chance(0.3)) {
        // Unlocking makes a vertex free again
        for (int i = 0; i < n; i++) {
            if (m.vertex(i)->isLocked() && c.g.chance(0.3)) {
                m.vertex(i)->unlock();
                fixed[(size_t)i] = ad.boundary[(size_t)i];
            }
        }
    }
    const int method = c.g.weighted({ 2, 3, 2 });
    static const char *names[] = { "uniform", "cotangent", "taubin" };
    const int iterations = (int)c.g.integer(0, 4);
    const double e1 = c.g.chance(0.3) ? 1.0 : c.g.real(0, 1.2), e2 = c.g.real(0, 1.0);
    c.label(names[method]);
    if (locked) c.label("locked vertices");
    c.describe(", %s, strength %.6g, %d iterations, %d locks", names[method], e1, iterations, locked);

    std::vector<L3> want;
    for (const V3 &p : s.P) want.push_back(L3(p));
    double cond = 1;
    bool ok = true;
    double growth = 1;
    for (int k = 0; k < iterations && ok; k++) {
        ok = step(want, s, ad, fixed, method == 1, e1, cond);
        if (method == 2 && ok) ok = step(want, s, ad, fixed, false, -e2, cond);
        growth *= 4 * cond * cond;
    }
    if (method == 2) tm::smoothTaubin(m, e1, e2, iterations);
    else tm::smoothLaplacian(m, e1, method == 1, iterations);

    if (ok) requireValid(c, m, "after smoothing");
    const View after = viewOf(m);
    c.require(after.s.F == before.s.F && after.holes == before.holes, "smoothing changed the connectivity");
    double shift = 0;
    for (const V3 &p : s.P) shift = std::max(shift, norm(p));
    const double D = s.diameter();
    const double tol = 1e-13 * shift + 1e-11 * D * (method == 1 ? std::min(growth, 1e3) : 1.0);
    double moved = 0;
    for (int i = 0; i < n; i++) {
        const V3 &p = after.s.P[(size_t)i];
        c.require(!ok || finite(p), "vertex %d is not finite", i);
        if (fixed[(size_t)i]) {
            c.require(p == s.P[(size_t)i], "%s vertex %d moved from %s to %s", ad.boundary[(size_t)i] ? "boundary" : "locked", i, show(s.P[(size_t)i]).c_str(), show(p).c_str());
            c.require(m.vertex(i)->isLocked() || ad.boundary[(size_t)i], "vertex %d lost its lock", i);
            continue;
        }
        if (!ok) continue;
        const double d = (double)norm(L3(p) - want[(size_t)i]);
        c.require(d <= tol, "free vertex %d is %.3g away from where the umbrella rule puts it (tolerance %.3g)", i, d, tol);
        moved = std::max(moved, norm(p - s.P[(size_t)i]));
    }
    // Where weights cancel or angles vanish, only what must not change is compared
    if (!ok) c.label("ill-conditioned");
    if (moved > 1e-3 * D) c.nontrivial = true;
    bool any = false;
    for (int i = 0; i < n; i++) any = any || !fixed[(size_t)i];
    if (any && !c.nontrivial) c.label("hardly moved");
    if (iterations > 1) c.label("several iterations");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P11";
    cfg.rule = "random manifolds, lock sets, strengths and iteration counts, compared with the same steps on the indexed surface; "
               "non-trivial: some vertex moves by more than a thousandth of the size";
    cfg.prop = prop;
    cfg.quickCases = 40000;
    cfg.thoroughCases = 400000;
    cfg.assumptions = { "with cotangent weights: no angle below 0.02 rad in any step, no nearly cancelling weights" };
    return pbt::run(cfg, argc, argv);
}
