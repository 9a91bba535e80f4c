// P27: results do not depend on the number of threads.
#include <omp.h>
#include "filters/filters.h"
#include "remesh/remesh.h"
#include "ops/ops.h"
#include "discrete.h"
#include "edits.h"
using namespace ref;

static void prop(Case &c) {
    Gen &g = c.g;
    const int op = g.weighted({ 4, 4, 4, 4, 1, 1, 2, 1 });
    static const char *names[] = { "Laplacian smoothing", "Taubin smoothing", "Gaussian denoising", "bilateral denoising", "L0 denoising", "implicit fairing", "simplification", "distances" };
    const bool closed = op >= 2 && op <= 4;
    Options o;
    o.closedOnly = closed;
    o.nice = true;
    o.maxFaces = op == 4 || op == 5 ? 80 : op == 6 ? 120 : 300;
    Made made = randomSurface(c, o);
    Surf s = made.s;
    // Enough work for the threads to meet
    if (op < 4 && g.chance(0.7)) {
        const int times = (int)g.integer(1, s.F.size() > 100 ? 1 : 2);
        for (int i = 0; i < times; i++) s = subdivide(s, false);
        c.describe(" subdivided %d times", times);
    }
    if (!distinctPositions(s) || !(minAngle(s) > 0.02)) throw Discard();
    const int threads = (int)g.integer(2, 16), iterations = (int)g.integer(1, 4);
    const double a = g.real(0.05, 1), b = g.real(0.1, 1);
    const bool cot = g.chance(0.5);
    pbt::Noise z(g.seedChoice());
    std::vector<char> lock(s.P.size(), 0);
    if (g.chance(0.4))
        for (char &l : lock) l = z.below(4) == 0;
    c.describe(", %s with %d threads, %d iterations", names[op], threads, iterations);
    c.label(names[op]);

    auto run = [&](int n) {
        omp_set_num_threads(n);
        tm::Mesh m = toMesh(s);
        for (size_t i = 0; i < lock.size(); i++)
            if (lock[i]) m.vertex((int)i)->lock();
        std::vector<double> out;
        switch (op) {
        case 0:
            tm::smoothLaplacian(m, a, cot, iterations);
            break;
        case 1:
            tm::smoothTaubin(m, a, b, iterations);
            break;
        case 2:
            tm::denoiseNormalGaussian(m, a, iterations);
            break;
        case 3:
            tm::denoiseNormalBilateral(m, a, b, iterations);
            break;
        case 4:
            tm::denoiseL0Smooth(m);
            break;
        case 5:
            tm::implicitFairing(m, a, iterations);
            break;
        case 6:
            tm::simplifyQEM(m, std::max(4, (int)(s.F.size() * b)), 2);
            break;
        default: {
            Surf t = s;
            for (V3 &p : t.P) p = p + V3(a, b, 0) * (0.1 * s.diameter());
            const EigenVector d = tm::getPerVertexShortestDistances(m, toMesh(t));
            for (int i = 0; i < d.size(); i++) out.push_back(d(i));
            return out;
        }
        }
        const Surf r = surfOf(m);
        for (const V3 &p : r.P) {
            out.push_back(p.x);
            out.push_back(p.y);
            out.push_back(p.z);
        }
        for (const Tri &t : r.F)
            for (int v : t) out.push_back(v);
        return out;
    };
    const std::vector<double> want = run(1);
    double size = 0;
    for (const V3 &p : s.P) size = std::max(size, norm(p));
    const int repeats = c.thorough ? 8 : 4;
    for (int k = 0; k < repeats; k++) {
        const std::vector<double> got = run(threads);
        c.require(got.size() == want.size(), "with %d threads the result has another size", threads);
        for (size_t i = 0; i < got.size(); i++) {
            const bool bothBad = !std::isfinite(got[i]) && !std::isfinite(want[i]);
            c.require(bothBad || std::fabs(got[i] - want[i]) <= 1e-9 * (size + std::fabs(want[i])), "value %zu of %zu is %.17g with %d threads and %.17g with one", i, got.size(), got[i], threads, want[i]);
        }
    }
    c.nontrivial = s.P.size() >= 8;
}

int main(int argc, char **argv) {
    setenv("OMP_WAIT_POLICY", "passive", 1);  // takes effect when the engine starts itself again
    pbt::Config cfg;
    cfg.id = "P27";
    cfg.rule = "random meshes and operations, run with one thread and repeatedly with two to sixteen; non-trivial: at least eight vertices";
    cfg.prop = prop;
    cfg.quickCases = 1500;
    cfg.thoroughCases = 25000;
    cfg.schedule = true;
    cfg.workers = 3;
    cfg.assumptions = { "interleavings as the machine happens to produce them" };
    return pbt::run(cfg, argc, argv);
}
