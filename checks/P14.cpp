// P14: L0 denoising is the alternating minimisation it names.
#include "filters/filters.h"
#include "discrete.h"
#include "edits.h"
using namespace ref;

typedef std::vector<std::vector<LD>> Dense;

// Solves a symmetric positive definite system for three right-hand sides.
static bool solve(Dense A, std::vector<L3> b, std::vector<L3> &x) {
    const size_t n = b.size();
    for (size_t k = 0; k < n; k++) {
        LD d = A[k][k];
        for (size_t j = 0; j < k; j++) d -= A[k][j] * A[k][j];
        if (!(d > 1e-9L)) return false;
        A[k][k] = sqrtl(d);
        for (size_t i = k + 1; i < n; i++) {
            LD v = A[i][k];
            for (size_t j = 0; j < k; j++) v -= A[i][j] * A[k][j];
            A[i][k] = v / A[k][k];
        }
    }
    for (size_t i = 0; i < n; i++) {
        for (size_t j = 0; j < i; j++) b[i] = b[i] - b[j] * A[i][j];
        b[i] = b[i] * (1 / A[i][i]);
    }
    for (size_t i = n; i-- > 0;) {
        for (size_t j = i + 1; j < n; j++) b[i] = b[i] - b[j] * A[j][i];
        b[i] = b[i] * (1 / A[i][i]);
    }
    x = b;
    return true;
}

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 200 : 100;
    o.nice = true;
    o.closedOnly = true;
    Made made = randomSurface(c, o);
    tm::Mesh m = toMesh(made.s);
    if (c.g.chance(0.2)) randomHistory(c, m, 8);
    const View before = viewOf(m);
    const Surf &s = before.s;
    if (!(minAngle(s) > 0.05)) throw Discard();
    const Adjacency ad(s);
    const size_t n = s.P.size();
    const double alpha0 = c.g.chance(0.4) ? 0.1 : c.g.logReal(1e-3, 1), beta0 = c.g.chance(0.4) ? 1e-3 : c.g.logReal(1e-4, 2e3);
    c.describe(", alpha %.4g, beta %.4g", alpha0, beta0);

    struct E4 {
        int i[4];
        LD w[4];
    };
    std::vector<E4> edges;
    LD avgEdge = 0, avgDihedral = 0;
    for (const auto &e : ad.face) {
        const int a = e.first.first, b = e.first.second;
        if (a > b) continue;
        // corners 1 and 3 are the ends, 2 and 4 the opposite corners
        E4 x;
        x.i[0] = a;
        x.i[1] = other(s.F[(size_t)e.second], a, b);
        x.i[2] = b;
        x.i[3] = other(s.F[(size_t)ad.face.at(Edge(b, a))], a, b);
        const L3 p1(s.P[(size_t)a]), p2(s.P[(size_t)x.i[1]]), p3(s.P[(size_t)b]), p4(s.P[(size_t)x.i[3]]);
        avgEdge += norm(p3 - p1);
        const L3 n1 = cross(p3 - p1, p2 - p1), n2 = cross(p4 - p1, p3 - p1);
        avgDihedral += (LD)M_PIl - atan2l(norm(cross(n1, n2)), dot(n1, n2));
        edges.push_back(x);
    }
    avgEdge /= (LD)edges.size();
    avgDihedral /= (LD)edges.size();

    // The operator is taken from the surface after one Taubin smoothing
    Twin t(m);
    tm::smoothTaubin(t.m);
    Surf q = s;
    for (size_t i = 0; i < n; i++) q.P[i] = t.pos(i);
    if (!(minAngle(q) > 0.02)) throw Discard();
    for (E4 &x : edges) {
        const L3 p1(q.P[(size_t)x.i[0]]), p2(q.P[(size_t)x.i[1]]), p3(q.P[(size_t)x.i[2]]), p4(q.P[(size_t)x.i[3]]);
        const LD S123 = norm(cross(p2 - p1, p2 - p3)) / 2, S134 = norm(cross(p4 - p1, p4 - p3)) / 2;
        const LD l = dot(p3 - p1, p3 - p1) * (S123 + S134);
        x.w[0] = (S123 * dot(p4 - p3, p3 - p1) + S134 * dot(p1 - p3, p3 - p2)) / l;
        x.w[1] = S134 / (S123 + S134);
        x.w[2] = (S123 * dot(p3 - p1, p1 - p4) + S134 * dot(p2 - p1, p1 - p3)) / l;
        x.w[3] = S123 / (S123 + S134);
    }
    Dense RR(n, std::vector<LD>(n, 0)), DD = RR;
    for (const E4 &x : edges) {
        const LD r[4] = { 1, -1, 1, -1 };
        for (int i = 0; i < 4; i++)
            for (int j = 0; j < 4; j++) {
                RR[(size_t)x.i[i]][(size_t)x.i[j]] += r[i] * r[j];
                DD[(size_t)x.i[i]][(size_t)x.i[j]] += x.w[i] * x.w[j];
            }
    }
    LD alpha = alpha0 * avgEdge, beta = beta0 * avgEdge;
    const LD lambda = 0.02L * avgEdge * avgEdge * avgDihedral;
    std::vector<L3> p, p0;
    double far = 0;
    for (const V3 &v : s.P) {
        p0.push_back(L3(v));
        far = std::max(far, norm(v));
    }
    p = p0;
    int steps = 0;
    if (fabsl(beta - 1e3L * avgEdge) < 1e-6L * beta) throw Discard();
    long kept = 0, cut = 0;
    while (beta < 1e3L * avgEdge) {
        std::vector<L3> rhs = p0;
        for (const E4 &x : edges) {
            L3 y;
            for (int i = 0; i < 4; i++) y = y + p[(size_t)x.i[i]] * x.w[i];
            const LD y2 = dot(y, y), lim = lambda / beta;
            if (fabsl(y2 - lim) < 1e-6L * lim) throw Discard();  // either choice would be right
            if (y2 < lim) {
                cut++;
                continue;
            }
            kept++;
            for (int i = 0; i < 4; i++) rhs[(size_t)x.i[i]] = rhs[(size_t)x.i[i]] + y * (beta * x.w[i]);
        }
        Dense A(n, std::vector<LD>(n));
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++) A[i][j] = (i == j) + alpha * RR[i][j] + beta * DD[i][j];
        if (!solve(A, rhs, p)) throw Discard();
        beta *= sqrtl(2.0L);
        alpha *= 0.5L;
        steps++;
        if (fabsl(beta - 1e3L * avgEdge) < 1e-6L * beta) throw Discard();
    }

    tm::denoiseL0Smooth(m, alpha0, beta0);
    requireValid(c, m, "after denoising");
    const View after = viewOf(m);
    c.require(after.s.F == s.F, "denoising changed the connectivity");
    const double D = s.diameter();
    double err = 0, moved = 0;
    for (size_t i = 0; i < n; i++) {
        c.require(finite(after.s.P[i]), "vertex %zu is not finite", i);
        err = std::max(err, (double)norm(L3(after.s.P[i]) - p[i]));
        moved = std::max(moved, norm(after.s.P[i] - s.P[i]));
    }
    const double tol = 1e-6 * (D + far);
    c.require(err <= tol, "a vertex is %.3g away from where the minimisation puts it (tolerance %.3g, %d steps)", err, tol, steps);
    if (steps && moved > 1e-3 * D) c.nontrivial = true;
    if (kept && cut) c.label("some edges flattened, some kept");
    else if (cut) c.label("all edges flattened");
    else if (kept) c.label("no edge flattened");
    if (!steps) c.label("no step");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P14";
    cfg.rule = "random closed meshes and strengths, compared with the minimisation carried out with dense matrices in extended precision; "
               "non-trivial: some vertex moves by more than a thousandth of the size";
    cfg.prop = prop;
    cfg.quickCases = 20000;
    cfg.thoroughCases = 200000;
    cfg.assumptions = { "closed meshes, no angle below 0.05 rad, no edge within 1e-6 of the flattening threshold in any step" };
    return pbt::run(cfg, argc, argv);
}
