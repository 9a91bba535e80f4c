// P21: hierarchical closest-point queries equal exhaustive search.
#include "core/bvh.h"
#include "bridge.h"
#include "geom.h"
using namespace ref;

// A set of triangles that need not be a surface.
static Surf triangleSoup(Case &c, std::string &name) {
    Surf s;
    const int kind = c.g.weighted({ 3, 2, 2, 2, 2, 2 });
    const int n = (int)(c.g.chance(0.5) ? c.g.integer(1, 24) : c.g.integer(1, c.thorough ? 400 : 160));
    pbt::Noise z(c.g.seedChoice());
    auto add = [&](const V3 &a, const V3 &b, const V3 &d) {
        const int k = (int)s.P.size();
        s.P.push_back(a);
        s.P.push_back(b);
        s.P.push_back(d);
        s.F.push_back({ k, k + 1, k + 2 });
    };
    auto rnd = [&](double r) { return V3(z.sym() * r, z.sym() * r, z.sym() * r); };
    static const char *names[] = { "soup", "flat", "clusters", "coincident", "uneven", "line" };
    name = names[kind];
    for (int i = 0; i < n; i++) {
        if (kind == 0) {
            const V3 o = rnd(1);
            add(o + rnd(0.3), o + rnd(0.3), o + rnd(0.3));
        } else if (kind == 1) {
            auto flat = [&](double r) { return V3(z.sym() * r, z.sym() * r, 0.0); };
            const V3 o = flat(1);
            add(o + flat(0.2), o + flat(0.2), o + flat(0.2));
        } else if (kind == 2) {
            const int k = z.below(3);
            const V3 o = V3(k == 0, k == 1, k == 2) * 5.0 + rnd(0.01);
            add(o + rnd(0.01), o + rnd(0.01), o + rnd(0.01));
        } else if (kind == 3) {
            // Same box centre again and again
            const V3 a = rnd(1), b = V3(z.sym(), z.sym(), z.sym());
            const int k = z.below(3);
            if (s.F.empty() || k == 0) {
                add(a * 0.3, b * 0.3, (a + b) * -0.3);
            } else {
                const Tri f = s.F[(size_t)z.below((int)s.F.size())];
                const V3 p = s.P[(size_t)f[0]], q = s.P[(size_t)f[1]], r = s.P[(size_t)f[2]];
                if (k == 1) add(p, q, r); else add(r, q, p);
            }
        } else if (kind == 4) {
            const double r = std::pow(10.0, -3.0 * z.unit());
            const V3 o = rnd(1);
            add(o + rnd(r), o + rnd(r), o + rnd(r));
        } else {
            const V3 o(z.sym(), 0, 0);
            add(o + V3(0, 0, 0.01), o + V3(0.01 * z.sym(), 0.3, 0), o + V3(0, -0.3, -0.01));
        }
    }
    return s;
}

static void prop(Case &c) {
    tm::BVH reused;
    const int builds = 1 + c.g.pick(3) / 2;
    for (int b = 0; b < builds; b++) {
        Surf s;
        std::string name;
        std::unique_ptr<tm::Mesh> mesh;
        if (c.g.chance(0.35)) {
            Options o;
            o.maxFaces = c.thorough ? 500 : 200;
            Made made = randomSurface(c, o);
            s = made.s;
            name = "mesh";
            mesh.reset(new tm::Mesh(verticesOf(s), indicesOf(s)));
        } else {
            s = triangleSoup(c, name);
        }
        double worst = 1.0;
        for (const Tri &f : s.F) worst = std::max(worst, triangleCondition(s.P[(size_t)f[0]], s.P[(size_t)f[1]], s.P[(size_t)f[2]]));
        if (!(worst < 1e4)) {
            // Leave out nearly degenerate triangles
            if (mesh) throw Discard();
            std::vector<Tri> keep;
            for (const Tri &f : s.F) {
                if (triangleCondition(s.P[(size_t)f[0]], s.P[(size_t)f[1]], s.P[(size_t)f[2]]) < 1e4) keep.push_back(f);
            }
            s.F = keep;
            if (s.F.empty()) throw Discard();
        }
        if (!mesh && c.g.chance(0.3)) {
            const double k = c.g.logReal(1e-4, 1e4);
            for (V3 &p : s.P) p = p * k;
        }
        c.label(name);
        if (s.F.size() > 8) c.label("more than eight triangles");
        std::vector<tm::BVH> made;
        const int way = mesh ? c.g.pick(2) : 1 + c.g.pick(2);
        const tm::BVH *bvh = &reused;
        std::unique_ptr<tm::BVH> fresh;
        if (way == 0) {
            fresh.reset(new tm::BVH(*mesh));
            c.label("from a mesh");
        } else if (way == 1) {
            fresh.reset(new tm::BVH(verticesOf(s), indicesOf(s)));
        } else {
            reused.construct(verticesOf(s), indicesOf(s));
            if (b) c.label("rebuilt");
        }
        if (fresh) bvh = fresh.get();

        V3 lo = s.P[(size_t)s.F[0][0]], hi = lo;
        for (const Tri &f : s.F) {
            for (int i : f) {
                const V3 &p = s.P[(size_t)i];
                lo = V3(std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z));
                hi = V3(std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z));
            }
        }
        const V3 mid = (lo + hi) * 0.5;
        const double R = norm(hi - lo);
        c.describe("[%s, %zu triangles, size %.3g] ", name.c_str(), s.F.size(), R);

        tm::Bounds3 box;
        for (const Tri &f : s.F) {
            for (int i : f) box.merge(tv(s.P[(size_t)i]));
        }
        c.require(rv(box.posMin()) == lo && rv(box.posMax()) == hi, "the bounding box is not the smallest one");
        for (const Tri &f : s.F) {
            for (int i : f) c.require(box.inside(tv(s.P[(size_t)i])), "a bounded point is not inside the box");
        }
        c.require(std::fabs(box.area() - 2 * ((hi.x - lo.x) * (hi.y - lo.y) + (hi.y - lo.y) * (hi.z - lo.z) + (hi.z - lo.z) * (hi.x - lo.x))) <=
                      1e-12 * R * R,
                  "the surface area of the box is wrong");

        const int queries = c.thorough ? 30 : 12;
        for (int k = 0; k < queries; k++) {
            V3 q;
            const int how = c.g.weighted({ 3, 2, 3, 1, 1 });
            pbt::Noise z(c.g.seedChoice());
            if (how == 0) {
                q = lo + V3((hi - lo).x * z.unit(), (hi - lo).y * z.unit(), (hi - lo).z * z.unit());
            } else if (how == 1) {
                q = mid + V3(z.sym(), z.sym(), z.sym()) * R;
            } else if (how == 2) {
                // near the surface
                const Tri f = s.F[(size_t)z.below((int)s.F.size())];
                const double u = z.unit(), v = z.unit() * (1 - u);
                q = s.P[(size_t)f[0]] * (1 - u - v) + s.P[(size_t)f[1]] * u + s.P[(size_t)f[2]] * v;
                q = q + V3(z.sym(), z.sym(), z.sym()) * (0.05 * R * z.unit());
            } else if (how == 3) {
                q = mid + V3(z.sym(), z.sym(), z.sym()) * (100 * R);
            } else {
                q = s.P[(size_t)s.F[(size_t)z.below((int)s.F.size())][(size_t)z.below(3)]];
            }
            const LD want = surfaceDistance(q, s);
            const Vec3 x = bvh->closestPoint(tv(q));
            const double d = bvh->distance(tv(q));
            // The triangles reaching the minimum decide the accuracy; bounded by the worst one nearby
            double Lm = 0, cm = 1;
            for (const Tri &f : s.F) {
                const V3 &a = s.P[(size_t)f[0]], &e = s.P[(size_t)f[1]], &g = s.P[(size_t)f[2]];
                if ((double)triangleDistance(q, a, e, g) <= (double)want + 1e-3 * R) {
                    cm = std::max(cm, triangleCondition(a, e, g));
                    Lm = std::max(Lm, std::max(norm(e - a), norm(g - a)));
                }
            }
            const double size = std::max(norm(lo), norm(hi)) + norm(q);
            const double reach = 1.0 + (double)want / std::max(Lm, 1e-300);
            const double tol = 1e-14 * cm * cm * std::min(reach, 1e3) * std::min(reach, 1e3) * Lm + 1e-13 * cm * size;
            c.require(finite(rv(x)) && std::isfinite(d), "closest point is not finite");
            c.require(std::fabs(d - (double)want) <= tol, "query %s: distance %.17g, exhaustive search %.17g (tolerance %.3g)", show(q).c_str(), d,
                      (double)want, tol);
            const double dx = (double)norm(L3(rv(x)) - L3(q));
            c.require(std::fabs(dx - d) <= 1e-13 * (size + d), "distance %.17g but the closest point is at %.17g", d, dx);
            const double off = (double)surfaceDistance(rv(x), s);
            c.require(off <= tol, "the closest point is %.3g off the triangles", off);
            // Box distance
            const double bd = box.distance(tv(q));
            V3 nearest(std::min(std::max(q.x, lo.x), hi.x), std::min(std::max(q.y, lo.y), hi.y), std::min(std::max(q.z, lo.z), hi.z));
            c.require(std::fabs(bd - norm(q - nearest)) <= 1e-12 * (size + bd), "distance to the box is %.17g instead of %.17g", bd, norm(q - nearest));
            const bool in = q.x >= lo.x && q.x <= hi.x && q.y >= lo.y && q.y <= hi.y && q.z >= lo.z && q.z <= hi.z;
            c.require(box.inside(tv(q)) == in, "wrong answer whether the query is inside the box");
            if (want > 1e-9 * R) c.nontrivial = c.nontrivial || s.F.size() > 1;
        }
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P21";
    cfg.rule = "random meshes and triangle sets (soup, flat, clustered, coincident, uneven, collinear), built freshly or into a used "
               "hierarchy, each with a dozen queries; non-trivial: more than one triangle and a query off the surface";
    cfg.prop = prop;
    cfg.quickCases = 25000;
    cfg.thoroughCases = 300000;
    cfg.assumptions = { "triangles whose longest side squared is at most 10^4 times twice their area" };
    return pbt::run(cfg, argc, argv);
}
