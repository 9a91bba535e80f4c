// P15: mesh Laplacian matrices are the symmetric zero-sum operators they name.
#include "ops/ops.h"
#include "discrete.h"
#include "edits.h"
using namespace ref;

static const double PI = 3.14159265358979323846;

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 300 : 120;
    o.transform = false;
    Made made = randomSurface(c, o);
    Surf s0 = made.s;
    const double k = c.g.chance(0.6) ? c.g.logReal(1e-5, 1e5) : 1.0;
    {
        const Mat3 R = rotation(randomDirection(c.g), c.g.real(0, 3));
        for (V3 &p : s0.P) p = (R * p) * k;
    }
    if (!distinctPositions(s0)) throw Discard();
    if (k < 1e-3) c.label("small scale");
    if (k > 1e3) c.label("large scale");
    tm::Mesh m = toMesh(s0);
    if (c.g.chance(0.25)) randomHistory(c, m, 12);
    const Surf s = surfOf(m);
    const Adjacency ad(s);
    const Topo topo = topology(s);
    const double ang = minAngle(s);
    if (!(ang > 1e-3)) throw Discard();
    c.nontrivial = true;
    const int n = (int)s.P.size();

    const int kind = c.g.weighted({ 1, 3, 1 });
    static const tm::MeshLaplace types[] = { tm::MeshLaplace::Adjacent, tm::MeshLaplace::Cotangent, tm::MeshLaplace::Belkin08 };
    static const char *names[] = { "adjacency", "cotangent", "heat kernel" };
    c.label(names[kind]);
    c.describe(" %s scale %.3g", names[kind], k);
    const EigenSparseMatrix L = tm::getMeshLaplacian(m, types[kind]);
    c.require(L.rows() == n && L.cols() == n, "%ld x %ld matrix for %d vertices", (long)L.rows(), (long)L.cols(), n);
    std::vector<std::map<int, double>> row((size_t)n);
    for (int a = 0; a < L.outerSize(); a++) {
        for (EigenSparseMatrix::InnerIterator it(L, a); it; ++it) row[(size_t)it.row()][(int)it.col()] += it.value();
    }
    double mean = 0;
    {
        std::set<Edge> seen;
        for (auto &e : ad.face) seen.insert(Edge(std::min(e.first.first, e.first.second), std::max(e.first.first, e.first.second)));
        for (const Edge &e : seen) mean += norm(s.P[(size_t)e.first] - s.P[(size_t)e.second]);
        mean /= (double)seen.size();
    }
    double shift = 0;
    for (const V3 &p : s.P) shift = std::max(shift, norm(p));
    for (int i = 0; i < n; i++) {
        double sum = 0, mag = 0;
        for (auto &e : row[(size_t)i]) {
            const int j = e.first;
            c.require(i == j || ad.nb[(size_t)i].count(j) || e.second == 0, "entry (%d,%d) = %.9g between vertices that are not adjacent", i, j, e.second);
            sum += e.second;
            mag += std::fabs(e.second);
            auto it = row[(size_t)j].find(i);
            const double t = it == row[(size_t)j].end() ? 0.0 : it->second;
            c.require(std::fabs(t - e.second) <= 1e-12 * (std::fabs(t) + std::fabs(e.second)) + (kind == 1 ? 1e-13 / (ang * ang) : 0.0),
                      "entries (%d,%d) = %.17g and (%d,%d) = %.17g differ", i, j, e.second, j, i, t);
        }
        c.require(std::fabs(sum) <= 1e-12 * mag, "row %d sums to %.3g", i, sum);
        for (int j : ad.nb[(size_t)i]) {
            auto it = row[(size_t)i].find(j);
            const double got = it == row[(size_t)i].end() ? 0.0 : it->second;
            if (kind == 0) {
                c.require(got == -1.0, "adjacency entry (%d,%d) is %.9g", i, j, got);
            } else if (kind == 1) {
                const double want = -(double)cotWeight(s, ad, i, j);
                // Error of a cotangent: rounding of the sides over the square of the sine
                double emin = 1e300;
                for (int side = 0; side < 2; side++) {
                    auto f = ad.face.find(side ? Edge(j, i) : Edge(i, j));
                    if (f == ad.face.end()) continue;
                    const V3 &p = s.P[(size_t)other(s.F[(size_t)f->second], i, j)];
                    emin = std::min(emin, std::min(norm(p - s.P[(size_t)i]), norm(p - s.P[(size_t)j])));
                }
                const double tol = 1e-14 * (1 + shift / emin) / (ang * ang);
                c.require(std::fabs(got - want) <= tol, "cotangent entry (%d,%d) is %.17g instead of %.17g%s", i, j, got, want,
                          ad.boundary[(size_t)i] && ad.boundary[(size_t)j] ? " (boundary vertices)" : "");
            } else {
                const double d = norm(s.P[(size_t)i] - s.P[(size_t)j]);
                const double want = -std::exp(-d * d / (4 * mean)) / (4 * PI * mean);
                c.require(std::fabs(got - want) <= 1e-10 * std::fabs(want) * (1 + d * d / mean) + 1e-300, "heat kernel entry (%d,%d) is %.17g instead of %.17g", i, j, got, want);
            }
        }
        if (kind == 0) c.require(row[(size_t)i][i] == (double)ad.nb[(size_t)i].size(), "diagonal %d is %.9g for degree %zu", i, row[(size_t)i][i], ad.nb[(size_t)i].size());
    }
    // Energies are not negative (with the cotangent matrix: Dirichlet energies)
    if (kind != 1 || topo.closed()) {
        pbt::Noise z(c.g.seedChoice());
        for (int rep = 0; rep < 3; rep++) {
            std::vector<double> x((size_t)n);
            for (int i = 0; i < n; i++) x[(size_t)i] = rep == 0 ? z.sym() : (rep == 1 ? (double)(i == z.below(n)) : s.P[(size_t)i].x / k);
            double q = 0, mag = 0;
            for (int i = 0; i < n; i++) {
                for (auto &e : row[(size_t)i]) {
                    q += x[(size_t)i] * e.second * x[(size_t)e.first];
                    mag += std::fabs(x[(size_t)i] * e.second * x[(size_t)e.first]);
                }
            }
            c.require(q >= -1e-11 * mag / (ang * ang), "negative energy %.6g", q);
        }
        c.label("definite");
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P15";
    cfg.rule = "random manifolds at scales from 1e-5 to 1e5, some after edits, one of the three operators compared entry by entry; non-trivial: no needle triangle";
    cfg.prop = prop;
    cfg.quickCases = 40000;
    cfg.thoroughCases = 400000;
    cfg.assumptions = { "no angle below 0.001 rad" };
    return pbt::run(cfg, argc, argv);
}
