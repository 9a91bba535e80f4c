// P32: the same call on the same mesh gives the same result, wherever its elements lie in memory.
// Freed memory is used again at once, so that elements come to lie in any order
#define ASAN_EXTRA ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
#include <fcntl.h>
#include <unistd.h>

#include <random>

#include "filters/filters.h"
#include "ops/ops.h"
#include "remesh/remesh.h"
#include "restore/restore.h"
#include "core/bvh.h"
#include "discrete.h"
#include "edits.h"
using namespace ref;

// Random numbers that the library draws are the same in both runs
static uint64_t deviceState = 1;
namespace std {
void random_device::_M_init(const std::string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
    deviceState = deviceState * 6364136223846793005ull + 1442695040888963407ull;
    return (result_type)(deviceState >> 32);
}
}  // namespace std

// Blocks of memory that make later ones lie in another order
struct Clutter {
    std::vector<std::unique_ptr<char[]>> blocks;
    Clutter(Noise &n, int count) {
        for (int i = 0; i < count; i++) {
            const size_t size = 16 + (size_t)(n.unit() * 400);
            blocks.emplace_back(new char[size]);
            memset(blocks.back().get(), (int)(n.unit() * 255), size);
        }
        for (int i = count - 1; i > 0; i--) std::swap(blocks[(size_t)i], blocks[(size_t)(n.unit() * (i + 1))]);
        blocks.resize(blocks.size() / 8);
    }
};

struct Outcome {
    bool failed = false;
    std::vector<V3> P;
    std::vector<std::vector<int>> F;
    std::vector<double> x;
    void add(const EigenMatrix &m) {
        for (Eigen::Index i = 0; i < m.rows(); i++)
            for (Eigen::Index j = 0; j < m.cols(); j++) x.push_back(m(i, j));
    }
    void add(const tm::Mesh &m) {
        for (int i = 0; i < (int)m.numVertices(); i++) P.push_back(rv(m.vertex(i)->pos()));
        for (int i = 0; i < (int)m.numFaces(); i++) {
            std::vector<int> f;
            for (auto it = m.face(i)->v_begin(); it != m.face(i)->v_end(); ++it) f.push_back(it->index());
            F.push_back(f);
        }
    }
};

static const char *const OPS[] = { "build", "edits", "fill", "front", "simplify", "remesh", "smooth", "fair", "denoise normals", "denoise L0", "Laplacian", "signatures", "curvature", "features", "distance", "completion" };

static Outcome once(const Surf &s, int op, const std::vector<uint32_t> &par) {
    Outcome o;
    auto real = [&](int k, double lo, double hi) { return lo + (hi - lo) * (par[(size_t)k] % 1000) / 999.0; };
    try {
        tm::Mesh m(verticesOf(s), indicesOf(s));
        deviceState = par[0];
        switch (op) {
        case 0: break;
        case 1:
            for (size_t i = 2; i < par.size(); i++) {
                const uint32_t k = par[i] / 8;
                tm::Halfedge *h = m.halfedge((int)(k % m.numHalfedges()));
                const uint32_t kind = par[i] % 8;
                if (kind < 3) m.flipHE(h);
                else if (kind < 5) m.splitHE(h);
                else if (kind < 7) m.collapseHE(h);
                else if (!m.face((int)(k % m.numFaces()))->isHole()) m.collapseFace(m.face((int)(k % m.numFaces())));
            }
            break;
        case 2: m.fillHoles(); break;
        case 3:
            for (int i = 0; i < (int)m.numFaces(); i++)
                if (m.face(i)->isHole()) tm::holeFillAdvancingFront(m, m.face(i));
            break;
        case 4: tm::simplifyQEM(m, std::max(1, (int)(real(2, 0.05, 0.95) * (double)m.numFaces())), 1 + (int)(par[3] % 4)); break;
        case 5: tm::remeshTriangular(m, real(2, 0, 1), real(3, 1, 2), par[4] % 2 ? 0.0 : real(4, 0, 3), 1 + (int)(par[5] % 3)); break;
        case 6:
            if (par[2] % 2) tm::smoothLaplacian(m, real(3, 0.1, 1), par[4] % 2, 1 + (int)(par[5] % 5));
            else tm::smoothTaubin(m, real(3, 0.1, 0.6), real(4, 0.1, 0.6), 1 + (int)(par[5] % 5));
            break;
        case 7: tm::implicitFairing(m, real(2, 0.001, 1) * s.diameter() * s.diameter(), 1 + (int)(par[3] % 2)); break;
        case 8:
            m.fillHoles();
            if (par[2] % 2) tm::denoiseNormalGaussian(m, real(3, 0.1, 2), 1 + (int)(par[4] % 3));
            else tm::denoiseNormalBilateral(m, real(3, 0.1, 2), real(5, 0.05, 1), 1 + (int)(par[4] % 3));
            break;
        case 9:
            m.fillHoles();
            tm::denoiseL0Smooth(m, real(2, 0.01, 0.3), real(3, 1e-4, 1e-2));
            break;
        case 10: o.add(EigenMatrix(tm::getMeshLaplacian(m, (tm::MeshLaplace)(par[2] % 3)))); break;
        case 11: o.add(tm::getHeatKernelSignatures(tm::getMeshLaplacian(m, tm::MeshLaplace::Cotangent), (int)std::min<size_t>(m.numVertices() - 1, 2 + par[2] % 6), 4)); break;
        case 12: {
            const auto r = tm::getPrincipalCurvaturesWithDerivatives(m, par[2] % 2);
            o.add(std::get<0>(r)), o.add(std::get<1>(r)), o.add(std::get<2>(r)), o.add(std::get<3>(r)), o.add(std::get<4>(r)), o.add(std::get<5>(r));
            break;
        }
        case 13: {
            const auto r = tm::getFeatureLineFieldWithFlags(m, par[2] % 2);
            o.add(std::get<0>(r)), o.add(std::get<1>(r));
            break;
        }
        case 15: tm::holeFillContextCoherent(m, 1 + (int)(par[2] % 2)); break;
        default: {
            Surf t = s;
            for (V3 &p : t.P) p = p + V3(real(2, 0, 1), real(3, 0, 1), real(4, 0, 1)) * s.diameter();
            tm::Mesh other = toMesh(t);
            o.x.push_back(tm::getHausdorffDistance(m, other));
            o.add(tm::getPerVertexShortestDistances(other, m));
            const tm::BVH bvh(m);
            for (const V3 &p : t.P) {
                const V3 q = rv(bvh.closestPoint(tv(p)));
                o.x.insert(o.x.end(), { q.x, q.y, q.z });
            }
        }
        }
        o.add(m);
    } catch (const std::runtime_error &) {
        o = Outcome();
        o.failed = true;
    }
    return o;
}

static void prop(Case &c) {
    Gen &g = c.g;
    const int op = g.chance(0.0015) ? 15 : g.weighted({ 1, 3, 3, 4, 4, 4, 2, 2, 2, 2, 2, 1, 2, 2, 1 });
    Options opt;
    opt.maxFaces = c.thorough ? 250 : 120;
    opt.nice = g.chance(0.7);
    if (op == 2 || op == 3) opt.forceOpen = true;
    // Division by zero in a parallel loop ends the process
    if (op == 8 || op == 9) opt.closedOnly = true;
    if (op >= 8) opt.nice = true, opt.minAngleDeg = 1;
    const Surf s = op == 15 ? puncturedTorus(c) : randomSurface(c, opt).s;
    if (!distinctPositions(s)) throw Discard();
    std::vector<uint32_t> par;
    const int n = op == 1 ? g.integer(8, 40) : 8;
    for (int i = 0; i < n; i++) par.push_back((uint32_t)g.integer(0, 99999));
    c.describe(", %s", OPS[op]);
    c.label(OPS[op]);
    Noise noise(par[0] + 1);
    const Outcome a = once(s, op, par);
    Clutter clutter(noise, 200 + (int)(noise.unit() * 800));
    const Outcome b = once(s, op, par);
    c.require(a.failed == b.failed, "%s reports an error on one run only", OPS[op]);
    if (a.failed) {
        c.label("reported an error");
        return;
    }
    c.nontrivial = true;
    c.require(a.P.size() == b.P.size() && a.F.size() == b.F.size(), "%s gives %zu vertices and %zu faces on one run, %zu and %zu on the other", OPS[op], a.P.size(), a.F.size(), b.P.size(), b.F.size());
    c.require(a.F == b.F, "%s gives other triangles on another run", OPS[op]);
    // The order of a sum may differ, what it adds may not
    auto eq = [](double x, double y, double size) { return x == y || (x != x && y != y) || std::fabs(x - y) <= 1e-9 * size; };
    double size = s.diameter();
    for (const V3 &p : s.P) size = std::max(size, norm(p));
    for (size_t i = 0; i < a.P.size(); i++)
        c.require(eq(a.P[i].x, b.P[i].x, size) && eq(a.P[i].y, b.P[i].y, size) && eq(a.P[i].z, b.P[i].z, size), "%s moves vertex %zu by %.3g on another run", OPS[op], i, norm(a.P[i] - b.P[i]));
    c.require(a.x.size() == b.x.size(), "%s gives %zu numbers on one run, %zu on the other", OPS[op], a.x.size(), b.x.size());
    for (size_t i = 0; i < a.x.size(); i++) c.require(eq(a.x[i], b.x[i], std::fabs(a.x[i])), "%s gives %.17g for number %zu on one run, %.17g on the other", OPS[op], a.x[i], i, b.x[i]);
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P32";
    cfg.rule = "random manifold, one operation with random parameters carried out twice with the memory in another state; non-trivial: the operation succeeded";
    cfg.prop = prop;
    cfg.quickCases = 25000;
    cfg.thoroughCases = 300000;
    cfg.assumptions = { "one thread", "random numbers drawn by remeshing are the same in both runs" };
    return pbt::run(cfg, argc, argv);
}
