// P18: principal curvatures and directions are the eigenpairs of the fitted tensor.
#include "ops/ops.h"
#include "curvature.h"
#include "edits.h"
using namespace ref;

static L3 rowOf(const EigenMatrix &m, int i) { return L3(m(i, 0), m(i, 1), m(i, 2)); }

// Spheres and tori, whose curvatures are known.
static void analytic(Case &c) {
    const double size = c.g.logReal(0.05, 20);
    const bool sphere = c.g.chance(0.5);
    const double ratio = c.g.real(0.3, 0.6);
    Surf s;
    if (sphere) s = subdivide(subdivide(subdivide(icosahedron(), true), true), true);
    else s = torus(40, 24, ratio, (unsigned)c.g.pick(4));
    // Which of the two angles belongs to the tube is read off the positions themselves
    const Mat3 R = rotation(randomDirection(c.g), c.g.real(0, 3));
    const V3 t(c.g.real(-1, 1), c.g.real(-1, 1), c.g.real(-1, 1));
    const bool inside = c.g.chance(0.3), smooth = c.g.chance(0.5);
    c.describe("%s of size %.3g%s%s", sphere ? "sphere" : "torus", size, inside ? ", inside out" : "", smooth ? ", smoothed tensors" : "");
    c.label(sphere ? "sphere" : "torus");
    Surf q = s;
    for (V3 &p : q.P) p = (R * p + t) * size;
    if (inside)
        for (Tri &f : q.F) std::swap(f[1], f[2]);
    tm::Mesh m = toMesh(q);
    std::map<V3, size_t> at;
    for (size_t i = 0; i < q.P.size(); i++) at[q.P[i]] = i;
    const auto r = tm::getPrincipalCurvatures(m, smooth);
    for (int i = 0; i < (int)m.numVertices(); i++) {
        const V3 &p = s.P[at.at(rv(m.vertex(i)->pos()))];
        double k1, k2;
        if (sphere) {
            k1 = k2 = 1 / norm(p);
        } else {
            const double rho = std::hypot(p.x, p.y);
            k1 = 1 / ratio;
            k2 = (rho - 1) / ratio / rho;
        }
        if (k1 < k2) std::swap(k1, k2);
        k1 /= size;
        k2 /= size;
        if (inside) {
            std::swap(k1, k2);
            k1 = -k1;
            k2 = -k2;
        }
        const double tol = (sphere ? 0.05 : 0.15 / ratio) / size;
        c.require(std::fabs(std::get<0>(r)(i) - k1) <= tol && std::fabs(std::get<1>(r)(i) - k2) <= tol, "vertex %d has curvatures %.6g and %.6g instead of %.6g and %.6g", i,
                  std::get<0>(r)(i), std::get<1>(r)(i), k1, k2);
    }
    c.nontrivial = true;
}

static void prop(Case &c) {
    if (c.g.chance(0.005)) return analytic(c);
    Options o;
    o.maxFaces = c.thorough ? 300 : 120;
    o.closedOnly = true;
    Made made = randomSurface(c, o);
    tm::Mesh m = toMesh(made.s);
    if (c.g.chance(0.2)) randomHistory(c, m, 8);
    const Surf s = surfOf(m);
    const double ang = minAngle(s);
    if (!(ang > 0.02)) throw Discard();
    const bool smooth = c.g.chance(0.4);
    if (smooth) {
        c.describe(", smoothed tensors");
        c.label("smoothed tensors");
    }
    const Adjacency ad(s);
    const Curvature ref(s, ad, smooth);
    if (!ref.ok) throw Discard();
    double shift = 0, shortest = 1e300;
    for (const V3 &p : s.P) shift = std::max(shift, norm(p));
    for (const auto &e : ad.face) shortest = std::min(shortest, norm(s.P[(size_t)e.first.first] - s.P[(size_t)e.first.second]));

    const auto r = tm::getPrincipalCurvatures(m, smooth);
    const int n = (int)s.P.size();
    const EigenVector &kmax = std::get<0>(r), &kmin = std::get<1>(r);
    const EigenMatrix &tmax = std::get<2>(r), &tmin = std::get<3>(r);
    c.require(kmax.size() == n && kmin.size() == n && tmax.rows() == n && tmax.cols() == 3 && tmin.rows() == n && tmin.cols() == 3, "the results have the wrong size");
    const double rel = 1e-13 * (1 + shift / shortest) / (ang * ang);
    if (!(rel < 1e-6)) throw Discard();
    const double tol = rel * (ref.size + 1 / shortest);
    bool flat = true;
    for (int i = 0; i < n; i++) {
        LD k1, k2;
        ref.principal((size_t)i, k1, k2);
        const double e = std::max(std::fabs((double)(kmax(i) - k1)), std::fabs((double)(kmin(i) - k2)));
        c.require(e <= tol, "vertex %d has curvatures %.9g and %.9g instead of %.9g and %.9g", i, kmax(i), kmin(i), (double)k1, (double)k2);
        c.require(kmax(i) >= kmin(i), "vertex %d: the maximum %.9g is below the minimum %.9g", i, kmax(i), kmin(i));
        const L3 a = rowOf(tmax, i), b = rowOf(tmin, i);
        const double gap = (double)(k1 - k2);
        if (norm(a) == 0 && norm(b) == 0) {
            c.require(gap < 1e-6 + 2 * tol, "vertex %d has no directions although its curvatures differ by %.3g", i, gap);
            c.label("umbilic points");
            continue;
        }
        flat = false;
        c.require(gap > 1e-6 - 2 * tol, "vertex %d has directions although its curvatures differ by %.3g only", i, gap);
        const LD un = 1e-9L;
        c.require(fabsl(norm(a) - 1) <= un && fabsl(norm(b) - 1) <= un, "vertex %d: directions of length %.9g and %.9g", i, (double)norm(a), (double)norm(b));
        c.require(fabsl(dot(a, b)) <= un, "vertex %d: directions at an angle with cosine %.3g", i, (double)dot(a, b));
        c.require(fabsl(dot(a, ref.n[(size_t)i])) <= un + rel && fabsl(dot(b, ref.n[(size_t)i])) <= un + rel, "vertex %d: directions are not tangent (%.3g, %.3g)", i,
                  (double)dot(a, ref.n[(size_t)i]), (double)dot(b, ref.n[(size_t)i]));
        const double ra = (double)norm(ref.T[(size_t)i] * a - a * k1), rb = (double)norm(ref.T[(size_t)i] * b - b * k2);
        c.require(ra <= tol && rb <= tol, "vertex %d: directions miss the principal axes (%.3g, %.3g, tolerance %.3g)", i, ra, rb, tol);
        if (k2 < 0 && k1 > 0) c.label("saddles");
    }
    if (!flat) c.nontrivial = true;
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P18";
    cfg.rule = "random closed meshes compared with tensors fitted in extended precision, and finely sampled spheres and tori with known curvatures; "
               "non-trivial: some vertex is not umbilic";
    cfg.prop = prop;
    cfg.quickCases = 30000;
    cfg.thoroughCases = 300000;
    cfg.assumptions = { "closed meshes, no angle below 0.02 rad, neighbouring normals not opposite" };
    return pbt::run(cfg, argc, argv);
}
