// P16: heat kernel signatures equal the spectral definition.
#include "ops/ops.h"
#include "discrete.h"
#include "bridge.h"
#include <Eigen/Eigenvalues>
using namespace ref;

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 400 : 160;
    o.minFaces = 4;
    o.nice = true;
    Made made = randomSurface(c, o);
    const Surf &s = made.s;
    const Adjacency ad(s);
    const int n = (int)s.P.size();
    if (!(minAngle(s) > 0.02)) throw Discard();

    // A symmetric positive semidefinite operator of the surface
    const int kind = c.g.weighted({ 2, 3, 2 });
    static const char *names[] = { "adjacency", "cotangent", "random weights" };
    c.label(names[kind]);
    pbt::Noise z(c.g.seedChoice());
    const double scale = c.g.chance(0.5) ? 1.0 : c.g.logReal(1e-6, 1e6);
    std::vector<EigenTriplet> trip;
    Eigen::MatrixXd dense = Eigen::MatrixXd::Zero(n, n);
    for (int i = 0; i < n; i++) {
        for (int j : ad.nb[(size_t)i]) {
            if (j < i) continue;
            const double w = scale * (kind == 0 ? 1.0 : kind == 1 ? (double)cotWeight(s, ad, i, j) : 0.2 + 1.8 * z.unit());
            trip.emplace_back(i, j, -w);
            trip.emplace_back(j, i, -w);
            trip.emplace_back(i, i, w);
            trip.emplace_back(j, j, w);
            dense(i, j) -= w;
            dense(j, i) -= w;
            dense(i, i) += w;
            dense(j, j) += w;
        }
    }
    EigenSparseMatrix L(n, n);
    L.setFromTriplets(trip.begin(), trip.end());
    const int nTimes = c.g.chance(0.1) ? 1 : (int)c.g.integer(2, 12);

    if (c.g.chance(0.05)) {
        // Requests that have no meaning
        const int bad = (int)c.g.integer(0, 3);
        const int K = bad == 0 ? n + (int)c.g.integer(0, 2) : bad == 1 ? -(int)c.g.integer(0, 2) : bad == 2 ? 1 : std::min(2, n - 1), T = bad == 3 ? -(int)c.g.integer(0, 2) : nTimes;
        c.describe(", K %d of %d, %d times (invalid)", K, n, T);
        bool failed = false;
        try {
            tm::getHeatKernelSignatures(L, K, T);
        } catch (const std::exception &) {
            failed = true;
        }
        c.require(failed, "%d eigenpairs of %d and %d times were accepted", K, n, T);
        c.label("rejected");
        c.nontrivial = true;
        return;
    }
    if (n < 4) throw Discard();
    const int K = c.g.chance(0.3) ? (int)c.g.integer(2, std::min(n - 1, 5)) : (int)c.g.integer(2, n - 1);
    c.describe(", %s, K %d of %d, %d times, scale %.3g", names[kind], K, n, nTimes, scale);
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> ref(dense);
    const Eigen::VectorXd lam = ref.eigenvalues();
    const double top = lam(n - 1);
    if (!(lam(1) > 1e-4 * top)) throw Discard();  // not connected, or nearly so
    // The selection of eigenpairs must not cut through a cluster
    if (!(lam(K) - lam(K - 1) > 1e-3 * lam(K))) throw Discard();

    const EigenMatrix got = tm::getHeatKernelSignatures(L, K, nTimes);
    c.require(got.rows() == n && got.cols() == nTimes, "%ld x %ld values for %d vertices and %d times", (long)got.rows(), (long)got.cols(), n, nTimes);
    const double t0 = 4 * std::log(10.0) / lam(K - 1), t1 = 4 * std::log(10.0) / lam(1);
    for (int t = 0; t < nTimes; t++) {
        const double time = nTimes == 1 ? t0 : t0 * std::pow(t1 / t0, (double)t / (nTimes - 1));
        for (int i = 0; i < n; i++) {
            double want = 0;
            for (int k = 0; k < K; k++) want += std::exp(-lam(k) * time) * ref.eigenvectors()(i, k) * ref.eigenvectors()(i, k);
            c.require(std::isfinite(got(i, t)), "the value of vertex %d at time %d is not finite", i, t);
            const double err = std::fabs(got(i, t) - want) * n;

            c.require(err <= 1e-3, "the value of vertex %d at time %d is %.9g instead of %.9g", i, t, got(i, t), want);
            if (t) c.require(got(i, t) <= got(i, t - 1) * (1 + 1e-9), "the value of vertex %d grows with time", i);
            c.require(got(i, t) > 0, "the value of vertex %d at time %d is %.9g", i, t, got(i, t));
        }
    }
    c.nontrivial = true;
    c.label(K <= 5 ? "few eigenpairs" : K * 2 > n ? "most eigenpairs" : "some eigenpairs");
    double gap = 1;
    for (int k = 1; k < K; k++) gap = std::min(gap, (lam(k) - lam(k - 1)) / top);
    if (gap < 1e-6) c.label("repeated eigenvalues");
    if (nTimes == 1) c.label("one time");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P16";
    cfg.rule = "connected mesh Laplacians (adjacency, cotangent, random weights) compared with a dense eigen decomposition; non-trivial: the selection of eigenpairs is unambiguous";
    cfg.prop = prop;
    cfg.quickCases = 20000;
    cfg.thoroughCases = 150000;
    cfg.assumptions = { "second eigenvalue above 1e-4 of the largest, relative gap of 1e-3 behind the last eigenpair used" };
    return pbt::run(cfg, argc, argv);
}
