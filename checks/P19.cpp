// P19: curvature derivatives and feature-line fields follow their definition.
#include "ops/ops.h"
#include "curvature.h"
#include "edits.h"
using namespace ref;

static L3 rowOf(const EigenMatrix &m, int i) { return L3(m(i, 0), m(i, 1), m(i, 2)); }

// Ridge (-1), valley (1) or neither (0) along an edge, from the curvature data of its ends.
struct Lines {
    const Surf &s;
    const EigenVector &kmax, &kmin, &emax;
    const EigenMatrix &tmax;
    double etol;
    bool clear = true;  // no decision hangs on rounding
    bool positive(LD v, LD tol) {
        if (fabsl(v) <= tol) clear = false;
        return v > 0;
    }
    int along(int a, int b) {
        if (kmax(a) - kmin(a) < 1e-2 || kmax(b) - kmin(b) < 1e-2) {
            if (fabs(kmax(a) - kmin(a) - 1e-2) < 1e-8 || fabs(kmax(b) - kmin(b) - 1e-2) < 1e-8) clear = false;
            return 0;
        }
        const L3 ta = rowOf(tmax, a), e = L3(s.P[(size_t)b]) - L3(s.P[(size_t)a]);
        L3 tb = rowOf(tmax, b);
        LD ea = emax(a), eb = emax(b);
        if (!positive(dot(ta, tb), 1e-9L)) {
            tb = tb * -1;
            eb = -eb;
        }
        const bool pa = positive(ea, etol), pb = positive(eb, etol);
        if (pa == pb) return 0;
        const LD len = norm(e);
        const bool ca = positive(dot(e, ta), 1e-9L * len) == pa, cb = positive(-dot(e, tb), 1e-9L * len) == pb;
        const LD ktol = 1e-9L * (fabs(kmax(a)) + fabs(kmin(a)) + fabs(kmax(b)) + fabs(kmin(b)));
        const bool ra = positive(kmax(a) - fabs(kmin(a)), ktol), rb = positive(kmax(b) - fabs(kmin(b)), ktol);
        if (ra && rb && ca && cb) return -1;
        if (!ra && !rb && !ca && !cb) return 1;
        return 0;
    }
};

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 240 : 120;
    o.closedOnly = true;
    Made made = randomSurface(c, o);
    Surf s0 = made.s;
    if (c.g.chance(0.5) && !s0.P.empty()) {
        // A smooth deformation, which makes ridges and valleys of some length
        const double D = s0.diameter();
        const V3 d = randomDirection(c.g), w = randomDirection(c.g) * (c.g.real(1, 6) / D);
        const double amp = c.g.real(0.02, 0.2) * D;
        for (V3 &p : s0.P) p = p + d * (amp * std::sin(dot(w, p)));
        c.describe(" bent");
        c.label("bent");
        if (!distinctPositions(s0)) throw Discard();
    }
    tm::Mesh m = toMesh(s0);
    if (c.g.chance(0.2)) randomHistory(c, m, 8);
    const Surf s = surfOf(m);
    const double ang = minAngle(s);
    if (!(ang > 0.02)) throw Discard();
    const bool smooth = c.g.chance(0.4);
    if (smooth) {
        c.describe(", smoothed tensors");
        c.label("smoothed tensors");
    }
    const Adjacency ad(s);
    Curvature ref(s, ad, smooth);
    if (!ref.ok) throw Discard();
    const auto cubics = ref.cubics(s);
    if (!ref.ok) throw Discard();
    double shift = 0, shortest = 1e300;
    for (const V3 &p : s.P) shift = std::max(shift, norm(p));
    for (const auto &e : ad.face) shortest = std::min(shortest, norm(s.P[(size_t)e.first.first] - s.P[(size_t)e.first.second]));
    const double rel = 1e-13 * (1 + shift / shortest) / (ang * ang);
    if (!(rel < 1e-6)) throw Discard();

    // Derivatives along the principal directions
    const int n = (int)s.P.size();
    const auto r = tm::getPrincipalCurvaturesWithDerivatives(m, smooth);
    const EigenVector &kmax = std::get<0>(r), &kmin = std::get<1>(r), &emax = std::get<2>(r), &emin = std::get<3>(r);
    const EigenMatrix &tmax = std::get<4>(r), &tmin = std::get<5>(r);
    c.require(kmax.size() == n && kmin.size() == n && emax.size() == n && emin.size() == n && tmax.rows() == n && tmin.rows() == n, "the results have the wrong size");
    const auto plain = tm::getPrincipalCurvatures(m, smooth);
    c.require(std::get<0>(plain).size() == n && std::get<1>(plain).size() == n && std::get<2>(plain).rows() == n && std::get<3>(plain).rows() == n, "the results without derivatives have the wrong size");
    for (int i = 0; i < n; i++) {
        const double k = 1e-9 * (ref.size + 1 / shortest);
        c.require(std::fabs(kmax(i) - std::get<0>(plain)(i)) <= k && std::fabs(kmin(i) - std::get<1>(plain)(i)) <= k, "vertex %d has other curvatures without derivatives", i);
        if (kmax(i) - kmin(i) < std::max(1e6 * k, 2e-6)) continue;
        c.require(fabsl(dot(rowOf(tmax, i), rowOf(std::get<2>(plain), i))) > 1 - 1e-6L && fabsl(dot(rowOf(tmin, i), rowOf(std::get<3>(plain), i))) > 1 - 1e-6L,
                  "vertex %d has other directions without derivatives", i);
    }
    const double tol = rel * (ref.size + 1 / shortest) / shortest / ang;

    int umbilic = 0;
    for (int i = 0; i < n; i++) {
        const L3 a = rowOf(tmax, i), b = rowOf(tmin, i);
        if (norm(a) == 0) umbilic++;
        const LD d1 = ref.derivative(s, ad, cubics, i, a), d2 = ref.derivative(s, ad, cubics, i, b);
        const double err = std::max(std::fabs((double)(d1 - emax(i))), std::fabs((double)(d2 - emin(i))));
        c.require(err <= tol, "vertex %d has derivatives %.9g and %.9g instead of %.9g and %.9g", i, emax(i), emin(i), (double)d1, (double)d2);
    }
    if (umbilic && umbilic < n) c.label("some umbilic points");
    if (umbilic < n) c.nontrivial = true;

    // The field: well formed in any case
    const auto fl = tm::getFeatureLineFieldWithFlags(m, smooth);
    const EigenMatrix &field = std::get<0>(fl);
    const EigenVector &flags = std::get<1>(fl);
    c.require(field.rows() == n && field.cols() == 3 && flags.size() == n, "the field has the wrong size");
    for (int i = 0; i < n; i++) {
        const LD l = norm(rowOf(field, i));
        c.require(std::isfinite((double)l), "the field at vertex %d is not finite", i);
        c.require(l <= 1 + 1e-9L, "the field at vertex %d has length %.9g", i, (double)l);
        c.require(flags(i) == 0 || flags(i) == 1, "the flag of vertex %d is %.9g", i, flags(i));
    }
    const EigenMatrix again = tm::getFeatureLineField(m, smooth);
    c.require(again.rows() == n && again.cols() == 3, "the field without flags has the wrong size");

    // ... and as defined, where no decision hangs on rounding
    Lines lines{ s, kmax, kmin, emax, tmax, tol };
    std::vector<int> kind(s.F.size());
    for (size_t f = 0; f < s.F.size(); f++) {
        bool ridge = false, valley = false;
        for (int k = 0; k < 3; k++) {
            const int l = lines.along(s.F[f][(size_t)k], s.F[f][(size_t)((k + 1) % 3)]);
            ridge = ridge || l < 0;
            valley = valley || l > 0;
        }
        kind[f] = ridge == valley ? 0 : ridge ? -1 : 1;
        if (ridge && valley) c.label("face of both kinds");
    }
    if (!lines.clear) {
        c.label("undecided lines");
        return;
    }
    std::vector<L3> dir((size_t)n);
    std::vector<int> count((size_t)n, 0);
    for (size_t f = 0; f < s.F.size(); f++) {
        if (kind[f]) continue;
        int beside = 0, edge = 0, orient = 0;
        for (int k = 0; k < 3; k++) {
            const int g = ad.face.at(Edge(s.F[f][(size_t)((k + 1) % 3)], s.F[f][(size_t)k]));
            if (!kind[(size_t)g]) continue;
            beside++;
            edge = k;
            orient = kind[(size_t)g];
        }
        if (beside != 1) continue;
        const int a = s.F[f][(size_t)edge], b = s.F[f][(size_t)((edge + 1) % 3)], o3 = s.F[f][(size_t)((edge + 2) % 3)];
        const L3 e = unitL(L3(s.P[(size_t)b]) - L3(s.P[(size_t)a])), x = L3(s.P[(size_t)o3]) - L3(s.P[(size_t)a]);
        const L3 d = unitL(x - e * dot(e, x)) * (LD)orient;  // into the triangle, away from a ridge
        dir[(size_t)a] = dir[(size_t)a] + d;
        dir[(size_t)b] = dir[(size_t)b] + d;
        count[(size_t)a]++;
        count[(size_t)b]++;
    }
    int marked = 0;
    for (int i = 0; i < n; i++) {
        c.require((flags(i) != 0) == (count[(size_t)i] != 0), "vertex %d is %smarked as lying beside a line", i, flags(i) != 0 ? "" : "not ");
        if (!count[(size_t)i]) continue;
        marked++;
        const LD l = norm(dir[(size_t)i]);
        if (l < 1e-6L) {
            c.label("cancelling directions");
            dir[(size_t)i] = rowOf(field, i);
            c.require(norm(dir[(size_t)i]) <= 1 + 1e-9L, "direction at vertex %d", i);
            continue;
        }
        dir[(size_t)i] = dir[(size_t)i] * (1 / l);
        c.require((double)norm(rowOf(field, i) - dir[(size_t)i]) <= 1e-6 + rel, "the field at vertex %d beside a line is wrong by %.3g", i, (double)norm(rowOf(field, i) - dir[(size_t)i]));
        c.require((double)norm(rowOf(again, i) - dir[(size_t)i]) <= 1e-6 + rel, "the field without flags differs at vertex %d", i);
    }
    c.label(marked ? "lines" : "no lines");
    // Elsewhere the directions are harmonic before being normalised
    std::vector<int> at((size_t)n, -1);
    std::vector<char> reached((size_t)n, 0);
    std::vector<int> todo;
    for (int i = 0; i < n; i++)
        if (count[(size_t)i]) todo.push_back(i), reached[(size_t)i] = 1;
    while (!todo.empty()) {
        const int v = todo.back();
        todo.pop_back();
        for (int j : ad.nb[(size_t)v])
            if (!reached[(size_t)j]) reached[(size_t)j] = 1, todo.push_back(j);
    }
    std::vector<int> rest;
    for (int i = 0; i < n; i++) {
        if (count[(size_t)i]) continue;
        if (!reached[(size_t)i]) {
            c.require(norm(rowOf(field, i)) == 0, "vertex %d has a direction although its part of the surface has no line", i);
            c.label("part without lines");
            continue;
        }
        at[(size_t)i] = (int)rest.size();
        rest.push_back(i);
    }
    const size_t N = rest.size();
    std::vector<std::vector<LD>> A(N, std::vector<LD>(N, 0));
    std::vector<L3> b(N);
    for (size_t k = 0; k < N; k++) {
        const int i = rest[k];
        for (int j : ad.nb[(size_t)i]) {
            const LD w = cotWeight(s, ad, i, j);
            A[k][k] += w;
            if (at[(size_t)j] >= 0) A[k][(size_t)at[(size_t)j]] -= w;
            else b[k] = b[k] + dir[(size_t)j] * w;
        }
    }
    for (size_t k = 0; k < N; k++) {
        size_t p = k;
        for (size_t i = k + 1; i < N; i++)
            if (fabsl(A[i][k]) > fabsl(A[p][k])) p = i;
        if (!(fabsl(A[p][k]) > 1e-4L)) throw Discard();
        std::swap(A[k], A[p]);
        std::swap(b[k], b[p]);
        for (size_t i = k + 1; i < N; i++) {
            const LD f = A[i][k] / A[k][k];
            if (f == 0) continue;
            for (size_t j = k; j < N; j++) A[i][j] -= f * A[k][j];
            b[i] = b[i] - b[k] * f;
        }
    }
    for (size_t k = N; k-- > 0;) {
        for (size_t j = k + 1; j < N; j++) b[k] = b[k] - b[j] * A[k][j];
        b[k] = b[k] * (1 / A[k][k]);
    }
    for (size_t k = 0; k < N; k++) {
        const LD l = norm(b[k]);
        if (l < 1e-4L) {
            c.label("nearly cancelling field");
            continue;
        }
        const double err = (double)norm(rowOf(field, rest[k]) - b[k] * (1 / l));
        c.require(err <= 1e-5, "the field at vertex %d away from lines is wrong by %.3g", rest[k], err);
        c.require((double)norm(rowOf(again, rest[k]) - b[k] * (1 / l)) <= 1e-5, "the field without flags differs at vertex %d", rest[k]);
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P19";
    cfg.rule = "random closed meshes, some bent smoothly: derivatives compared with cubic forms fitted in extended precision, the field with its definition; "
               "non-trivial: some vertex is not umbilic";
    cfg.prop = prop;
    cfg.quickCases = 15000;
    cfg.thoroughCases = 150000;
    cfg.assumptions = { "closed meshes, no angle below 0.02 rad, neighbouring normals not opposite; ridge and valley decisions not within rounding" };
    return pbt::run(cfg, argc, argv);
}
