// P20: the closest point on a triangle is the true minimiser.
#include "core/triangle.h"
#include "bridge.h"
#include "geom.h"
using namespace ref;

static V3 corner(Gen &g, bool lattice) {
    if (lattice) return V3((double)g.integer(-3, 3), (double)g.integer(-3, 3), (double)g.integer(-3, 3));
    return V3(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1));
}

static void prop(Case &c) {
    const bool lattice = c.g.chance(0.4);
    V3 t[3];
    for (V3 &p : t) p = corner(c.g, lattice);
    if (!lattice && c.g.chance(0.3)) {
        // A thin triangle: third corner near the line through the others
        const double s = c.g.real(-0.5, 1.5), h = c.g.logReal(1e-3, 1.0);
        t[2] = t[0] + (t[1] - t[0]) * s + (t[2] - t[0]) * h;
    }
    const double cond = triangleCondition(t[0], t[1], t[2]);
    if (!(cond < 1e4)) throw Discard();
    const double L = std::max(norm(t[1] - t[0]), std::max(norm(t[2] - t[1]), norm(t[0] - t[2])));

    // Query: by region, so that every Voronoi region and the borders between regions are met
    const V3 n = unit(cross(t[1] - t[0], t[2] - t[0]));
    V3 q;
    const int how = c.g.weighted({ 3, 3, 2, 2, 2, 1 });
    if (lattice && how < 2) {
        q = V3((double)c.g.integer(-6, 6), (double)c.g.integer(-6, 6), (double)c.g.integer(-6, 6));
    } else if (how <= 1) {
        const double u = c.g.real(-2, 3), v = c.g.real(-2, 3), h = c.g.real(-2, 2);
        q = t[0] + (t[1] - t[0]) * u + (t[2] - t[0]) * v + n * (h * L);
    } else if (how == 2) {
        const double u = c.g.real(0, 1), v = c.g.real(0, 1) * (1 - u);
        q = t[0] + (t[1] - t[0]) * u + (t[2] - t[0]) * v;
        if (c.g.chance(0.7)) q = q + n * (c.g.real(-1, 1) * L);
    } else if (how == 3) {
        // Beside an edge
        const int k = c.g.pick(3);
        const V3 a = t[k], b = t[(k + 1) % 3], e = b - a;
        q = a + e * c.g.real(-0.2, 1.2) + unit(cross(e, n)) * (c.g.real(-0.2, 1.5) * L) + n * (c.g.real(-1, 1) * L);
    } else if (how == 4) {
        // Around a corner
        const int k = c.g.pick(3);
        q = t[k] + randomDirection(c.g) * (L * c.g.logReal(1e-3, 100.0));
    } else {
        // Exactly on the triangle
        const int k = c.g.pick(3);
        q = c.g.chance(0.5) ? t[k] : (t[k] + t[(k + 1) % 3]) * 0.5;
    }
    double scale = 1.0;
    if (c.g.chance(0.3)) {
        scale = c.g.logReal(1e-4, 1e4);
        for (V3 &p : t) p = p * scale;
        q = q * scale;
    }
    if (c.g.chance(0.2)) {
        const V3 o = randomDirection(c.g) * (scale * c.g.real(0, 20));
        for (V3 &p : t) p = p + o;
        q = q + o;
    }
    const LD want = triangleDistance(q, t[0], t[1], t[2]);
    {
        const LD e0 = segmentDistance(L3(q), L3(t[0]), L3(t[1])), e1 = segmentDistance(L3(q), L3(t[1]), L3(t[2])),
                 e2 = segmentDistance(L3(q), L3(t[2]), L3(t[0]));
        const LD m = std::min(e0, std::min(e1, e2));
        bool atCorner = false;
        for (const V3 &p : t) atCorner = atCorner || norm(L3(q) - L3(p)) <= want * (1 + 1e-12L);
        if (want < m * (1 - 1e-12L)) c.label("interior region");
        else if (atCorner) c.label("corner region");
        else c.label("edge region");
    }
    c.nontrivial = true;
    c.describe("triangle %s %s %s query %s", show(t[0]).c_str(), show(t[1]).c_str(), show(t[2]).c_str(), show(q).c_str());

    const tm::Triangle tri(tv(t[0]), tv(t[1]), tv(t[2]));
    const V3 x = rv(tri.closestPoint(tv(q)));
    const double d = tri.distance(tv(q));
    const double size = std::max(norm(t[0]), std::max(norm(t[1]), norm(t[2]))) + norm(q);
    // Rounding of the inputs' differences, amplified by how thin the triangle is
    const double Ls = std::max(norm(t[1] - t[0]), std::max(norm(t[2] - t[1]), norm(t[0] - t[2])));
    const double cs = triangleCondition(t[0], t[1], t[2]);
    const double reach = 1.0 + (double)want / Ls;
    const double tol = 1e-14 * size * cs * reach + 1e-14 * cs * cs * reach * reach * Ls;
    c.require(finite(x) && std::isfinite(d), "closest point is not finite");
    const double off = (double)triangleDistance(x, t[0], t[1], t[2]);
    const double dx = (double)norm(L3(x) - L3(q));
    c.require(off <= tol, "the point returned is %.3g away from the triangle (tolerance %.3g)", off, tol);
    c.require(dx <= (double)want + tol, "the point returned is at distance %.17g, the triangle at %.17g (tolerance %.3g)", dx, (double)want, tol);
    c.require(dx >= (double)want - tol, "the point returned is nearer than the triangle: %.17g < %.17g", dx, (double)want);
    c.require(std::fabs(d - dx) <= 1e-13 * (size + dx), "distance %.17g but the closest point is at %.17g", d, dx);
    const tm::Bounds3 b = tri.bounds();
    for (int k = 0; k < 3; k++) {
        const double lo = std::min(tv(t[0])[k], std::min(tv(t[1])[k], tv(t[2])[k]));
        const double hi = std::max(tv(t[0])[k], std::max(tv(t[1])[k], tv(t[2])[k]));
        c.require(b.posMin()[k] == lo && b.posMax()[k] == hi, "the bounding box of the triangle is wrong on axis %d", k);
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P20";
    cfg.rule = "random and lattice triangles with queries placed by region (interior, beside edges, around corners, on the triangle); "
               "every case that is not discarded is non-trivial";
    cfg.prop = prop;
    cfg.quickCases = 3000000;
    cfg.thoroughCases = 60000000;
    cfg.assumptions = { "triangles whose longest side squared is at most 10^4 times twice their area" };
    return pbt::run(cfg, argc, argv);
}
