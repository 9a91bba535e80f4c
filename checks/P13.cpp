// P13: normal-based denoising follows the filter it names and commutes with motions.
#include "filters/filters.h"
#include "discrete.h"
#include "edits.h"
using namespace ref;

// Weight of something at distance x: a Gaussian with a polynomial tail that ends at four widths.
static LD kernel(LD x, LD sigma) {
    const LD coef = 1 / (sqrtl(2 * (LD)M_PI) * sigma);
    if (x < 2 * sigma) return coef * expl(-x * x / (2 * sigma * sigma));
    if (x < 4 * sigma) {
        const LD a = 4 - x / sigma;
        return coef * a * a * a * a / (16 * expl(2.0L));
    }
    return 0;
}

static void taubin(std::vector<L3> &P, const Adjacency &ad) {
    for (int k = 0; k < 6; k++) {
        const LD e = k % 2 ? -0.53L : 0.5L;
        std::vector<L3> Q = P;
        for (size_t i = 0; i < P.size(); i++) {
            L3 sum;
            for (int j : ad.nb[i]) sum = sum + P[(size_t)j];
            Q[i] = P[i] + (sum * (1 / (LD)ad.nb[i].size()) - P[i]) * e;
        }
        P = Q;
    }
}

struct Guard {
    bool ok = true;
    LD condition = 1;
};

static void filterStep(std::vector<L3> &P, const Surf &s, const Adjacency &ad, LD sc, LD sn, bool bilateral, Guard &g) {
    taubin(P, ad);
    const size_t nf = s.F.size();
    std::vector<L3> N(nf), C(nf), M(nf);
    std::vector<LD> A(nf);
    for (size_t f = 0; f < nf; f++) {
        const L3 &a = P[(size_t)s.F[f][0]], &b = P[(size_t)s.F[f][1]], &c = P[(size_t)s.F[f][2]];
        const L3 o = cross(b - a, c - a);
        const LD l = norm(o), h = std::max(norm(b - a), norm(c - a));
        if (!(l > 1e-3L * h * h)) {
            g.ok = false;
            return;
        }
        N[f] = o * (1 / l);
        C[f] = (a + b + c) * (1 / 3.0L);
        A[f] = l / 2;
    }
    for (size_t f = 0; f < nf; f++) {
        L3 sum;
        LD mag = 0;
        for (int k = 0; k < 3; k++) {
            const int j = ad.face.at(Edge(s.F[f][(size_t)((k + 1) % 3)], s.F[f][(size_t)k]));
            const LD d = norm(C[f] - C[(size_t)j]);
            LD w = A[(size_t)j] * kernel(d, sc);
            if (fabsl(d - 4 * sc) < 1e-3L * sc) g.ok = false;
            if (bilateral) {
                const LD nd = norm(N[f] - N[(size_t)j]);
                w *= kernel(nd, sn);
                if (fabsl(nd - 4 * sn) < 1e-3L * sn) g.ok = false;
            }
            sum = sum + N[(size_t)j] * w;
            mag += w;
        }
        const LD l = norm(sum);
        if (mag > 0) {
            if (!(l > 0.05L * mag)) g.ok = false;
            g.condition = std::max(g.condition, mag / std::max(l, 1e-30L));
        }
        if (l > 0) M[f] = sum * (1 / l);
    }
    std::vector<L3> Q = P;
    for (size_t i = 0; i < P.size(); i++) {
        L3 inc;
        LD area = 0;
        for (auto &fk : ad.tri[i]) {
            const size_t f = (size_t)fk.first;
            inc = inc + M[f] * (A[f] * dot(M[f], C[f] - P[i]));
            area += A[f];
        }
        Q[i] = P[i] + inc * (1 / area);
    }
    P = Q;
}

// A mesh with a hole that is no triangle is reported as an error and stays as it was.
static void openMesh(Case &c) {
    Options o;
    o.maxFaces = 80;
    o.forceOpen = true;
    tm::Mesh m = toMesh(randomSurface(c, o).s);
    const View before = viewOf(m);
    bool large = false;
    for (const auto &h : before.holes) large = large || h.size() > 3;
    if (!large) throw Discard();
    bool refused = false;
    try {
        if (c.g.chance(0.5)) tm::denoiseNormalGaussian(m);
        else tm::denoiseNormalBilateral(m);
    } catch (const std::exception &) {
        refused = true;
    }
    c.require(refused, "an open mesh was denoised");
    requireValid(c, m, "after a refused denoising");
    const View after = viewOf(m);
    c.require(after.s.P == before.s.P && after.s.F == before.s.F, "a refused denoising changed the mesh");
    c.label("open");
}

static void prop(Case &c) {
    if (c.g.chance(0.05)) return openMesh(c);
    Options o;
    o.maxFaces = c.thorough ? 300 : 160;
    o.nice = c.g.chance(0.8);
    o.closedOnly = true;
    Made made = randomSurface(c, o);
    tm::Mesh m = toMesh(made.s);
    if (c.g.chance(0.2)) randomHistory(c, m, 10);
    const View before = viewOf(m);
    const Surf &s = before.s;
    const Adjacency ad(s);
    const bool bilateral = c.g.chance(0.5);
    const int iterations = (int)c.g.integer(0, 3);
    const double sc = c.g.chance(0.3) ? 0.2 : c.g.logReal(0.05, 3), sn = c.g.chance(0.3) ? 0.1 : c.g.logReal(0.02, 2);
    c.label(bilateral ? "bilateral" : "gaussian");
    c.describe(", %s %.4g/%.4g, %d iterations", bilateral ? "bilateral" : "gaussian", sc, sn, iterations);

    LD avg = 0;
    for (const auto &e : ad.face) avg += norm(L3(s.P[(size_t)e.first.first]) - L3(s.P[(size_t)e.first.second]));
    avg /= (LD)ad.face.size();
    std::vector<L3> want;
    double far = 0;
    for (const V3 &p : s.P) {
        want.push_back(L3(p));
        far = std::max(far, norm(p));
    }
    Guard g;
    for (int k = 0; k < iterations && g.ok; k++) filterStep(want, s, ad, sc * avg, sn, bilateral, g);
    if (!g.ok) throw Discard();

    if (bilateral) tm::denoiseNormalBilateral(m, sc, sn, iterations);
    else tm::denoiseNormalGaussian(m, sc, iterations);

    requireValid(c, m, "after denoising");
    const View after = viewOf(m);
    c.require(after.s.F == s.F, "denoising changed the connectivity");
    const double D = s.diameter();
    double err = 0, moved = 0;
    for (size_t i = 0; i < s.P.size(); i++) {
        c.require(finite(after.s.P[i]), "vertex %zu is not finite", i);
        err = std::max(err, (double)norm(L3(after.s.P[i]) - want[i]));
        moved = std::max(moved, norm(after.s.P[i] - s.P[i]));
    }
    const double tol = 1e-12 * far + 1e-8 * D;
    c.require(err <= tol, "a vertex is %.3g away from where the filter puts it (tolerance %.3g)", err, tol);
    if (iterations && moved > 1e-3 * D) c.nontrivial = true;
    if (iterations > 1) c.label("several iterations");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P13";
    cfg.rule = "random closed meshes, widths and iteration counts, compared with the filter computed from its definition in extended precision; "
               "non-trivial: some vertex moves by more than a thousandth of the size";
    cfg.prop = prop;
    cfg.quickCases = 60000;
    cfg.thoroughCases = 600000;
    cfg.assumptions = { "closed meshes without nearly degenerate triangles in any step, no face whose weights nearly vanish or cancel" };
    return pbt::run(cfg, argc, argv);
}
