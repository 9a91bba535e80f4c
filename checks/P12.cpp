// P12: implicit fairing takes the backward Euler diffusion step.
#include "filters/filters.h"
#include "discrete.h"
#include "edits.h"
using namespace ref;

typedef std::vector<std::map<int, LD>> Matrix;

// I - lambda * (normalised cotangent umbrella operator at the given positions)
static bool systemOf(const Surf &s, const Adjacency &ad, double lambda, Matrix &A, LD &growth) {
    const size_t n = s.P.size();
    A.assign(n, {});
    growth = 1;
    for (size_t i = 0; i < n; i++) {
        LD sum = 0, mag = 0;
        for (int j : ad.nb[i]) {
            const LD w = cotWeight(s, ad, (int)i, j);
            A[i][j] = w;
            sum += w;
            mag += fabsl(w);
        }
        if (!(sum > 0.02L * mag)) return false;
        for (int j : ad.nb[i]) A[i][j] *= -(LD)lambda / sum;
        A[i][(int)i] = 1 + (LD)lambda;
        growth = std::max(growth, mag / sum);
    }
    return true;
}

// Dense elimination with pivoting; three right-hand sides.
static bool solve(const Matrix &A, const std::vector<V3> &b, std::vector<L3> &x, LD &pivot) {
    const size_t n = b.size();
    std::vector<std::vector<LD>> M(n, std::vector<LD>(n + 3, 0));
    for (size_t i = 0; i < n; i++) {
        for (auto &e : A[i]) M[i][(size_t)e.first] = e.second;
        M[i][n] = b[i].x;
        M[i][n + 1] = b[i].y;
        M[i][n + 2] = b[i].z;
    }
    pivot = 1e30L;
    for (size_t k = 0; k < n; k++) {
        size_t p = k;
        for (size_t i = k + 1; i < n; i++)
            if (fabsl(M[i][k]) > fabsl(M[p][k])) p = i;
        pivot = std::min(pivot, fabsl(M[p][k]));
        if (pivot < 1e-6L) return false;
        std::swap(M[k], M[p]);
        for (size_t i = k + 1; i < n; i++) {
            const LD f = M[i][k] / M[k][k];
            if (f == 0) continue;
            for (size_t j = k; j < n + 3; j++) M[i][j] -= f * M[k][j];
        }
    }
    x.assign(n, L3());
    for (size_t k = n; k-- > 0;) {
        LD v[3] = { M[k][n], M[k][n + 1], M[k][n + 2] };
        for (size_t j = k + 1; j < n; j++) {
            v[0] -= M[k][j] * x[j].x;
            v[1] -= M[k][j] * x[j].y;
            v[2] -= M[k][j] * x[j].z;
        }
        x[k].x = v[0] / M[k][k];
        x[k].y = v[1] / M[k][k];
        x[k].z = v[2] / M[k][k];
    }
    return true;
}

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 160 : 90;
    o.nice = true;
    Made made = randomSurface(c, o);
    tm::Mesh m = toMesh(made.s);
    if (c.g.chance(0.2)) randomHistory(c, m, 10);
    const View before = viewOf(m);
    if (!distinctPositions(before.s)) throw Discard();
    const double lambda = c.g.chance(0.1) ? 0.0 : c.g.chance(0.3) ? 1.0 : c.g.logReal(1e-3, 5);
    const int iterations = (int)c.g.integer(1, 3);
    const bool locks = c.g.chance(0.2);
    if (locks)
        for (int i = 0; i < (int)m.numVertices(); i++)
            if (c.g.chance(0.3)) m.vertex(i)->lock();
    c.describe(", lambda %.6g, %d iterations", lambda, iterations);
    if (lambda == 0) c.label("lambda zero");
    if (lambda > 1) c.label("lambda above one");
    Twin whole(m);
    bool moved = false;
    for (int k = 0; k < iterations; k++) {
        const Surf s = surfOf(m);
        const Adjacency ad(s);
        Matrix A;
        LD growth, pivot;
        if (!(minAngle(s) > 0.05) || !systemOf(s, ad, lambda, A, growth)) throw Discard();
        std::vector<L3> want;
        if (!solve(A, s.P, want, pivot)) throw Discard();
        // The solution must not react strongly to the residual that the iterative solver may leave
        LD out = 0, in = 0;
        for (size_t i = 0; i < want.size(); i++) {
            out = std::max(out, norm(want[i]));
            in = std::max(in, (LD)norm(s.P[i]));
        }
        if (out > 2 * in || pivot < 0.2L) throw Discard();
        tm::implicitFairing(m, lambda, 1);
        requireValid(c, m, "after fairing");
        const View after = viewOf(m);
        c.require(after.s.F == before.s.F && after.holes == before.holes, "fairing changed the connectivity");
        LD rr[3] = {}, bb[3] = {}, err = 0;
        for (size_t i = 0; i < want.size(); i++) {
            c.require(finite(after.s.P[i]), "vertex %zu is not finite", i);
            L3 r = L3(s.P[i]) * -1.0L;
            for (auto &e : A[i]) r = r + L3(after.s.P[(size_t)e.first]) * e.second;
            rr[0] += r.x * r.x, rr[1] += r.y * r.y, rr[2] += r.z * r.z;
            bb[0] += (LD)s.P[i].x * s.P[i].x, bb[1] += (LD)s.P[i].y * s.P[i].y, bb[2] += (LD)s.P[i].z * s.P[i].z;
            err = std::max(err, norm(L3(after.s.P[i]) - want[i]));
            moved = moved || norm(L3(after.s.P[i]) - L3(s.P[i])) > 1e-3L * s.diameter();
        }
        for (int d = 0; d < 3; d++) {
            const double q = bb[d] > 0 ? (double)sqrtl(rr[d] / bb[d]) : (double)sqrtl(rr[d]);
            c.require(q <= 2e-6, "relative residual %.3g of coordinate %d", q, d);
        }
    }
    // Several iterations in one call are the same
    tm::implicitFairing(whole.m, lambda, iterations);
    for (size_t i = 0; i < before.s.P.size(); i++) {
        const double d = norm(whole.pos(i) - rv(m.vertex((int)i)->pos()));
        c.require(d <= 1e-4 * (before.s.diameter() + norm(before.s.P[i])), "%d iterations in one call differ from as many calls by %.3g", iterations, d);
    }
    if (moved) c.nontrivial = true;
    if (iterations > 1) c.label("several iterations");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P12";
    cfg.rule = "random manifolds and strengths; the residual of the diffusion system is computed from its definition; "
               "non-trivial: some vertex moves by more than a thousandth of the size";
    cfg.prop = prop;
    cfg.quickCases = 50000;
    cfg.thoroughCases = 600000;
    cfg.assumptions = { "no angle below 0.05 rad, no nearly cancelling weights, strength up to 5", "relative residual up to 2e-6 in each coordinate" };
    return pbt::run(cfg, argc, argv);
}
