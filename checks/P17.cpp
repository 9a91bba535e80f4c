// P17: normals, areas and pointwise curvatures satisfy the surface identities.
#include "discrete.h"
#include "edits.h"
using namespace ref;

static const double PI = 3.14159265358979323846;

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 300 : 120;
    Made made = randomSurface(c, o);
    tm::Mesh m = toMesh(made.s);
    if (c.g.chance(0.3)) randomHistory(c, m, 15);
    const View view = viewOf(m);
    const Surf &s = view.s;
    const Topo topo = topology(s);
    c.require(topo.ok, "internal: %s", topo.why.c_str());
    const double ang = minAngle(s);
    if (!(ang > 2e-3)) throw Discard();
    const Adjacency ad(s);
    const double D = s.diameter();
    double shift = 0;
    for (const V3 &p : s.P) shift = std::max(shift, norm(p));
    // Rounding error of a coordinate difference relative to the shortest edge, amplified by thin triangles
    double shortest = 1e300;
    for (const Tri &t : s.F) {
        for (int k = 0; k < 3; k++) shortest = std::min(shortest, norm(s.P[(size_t)t[(size_t)k]] - s.P[(size_t)t[(size_t)((k + 1) % 3)]]));
    }
    const double eps = 1e-15 * (1 + shift / shortest) / (ang * ang);
    if (!(eps < 1e-7)) throw Discard();
    c.nontrivial = true;
    c.label(topo.closed() ? "closed (after edits)" : "open (after edits)");

    // Faces
    double total = 0;
    for (size_t i = 0; i < s.F.size(); i++) {
        const tm::Face *f = m.face(view.triFace[i]);
        const double area = (double)triArea(s, (int)i);
        total += area;
        c.require(std::fabs(f->area() - area) <= 20 * eps * area, "face %d: area %.17g instead of %.17g", f->index(), f->area(), area);
        const Tri &t = s.F[i];
        const V3 n = unit(cross(s.P[(size_t)t[1]] - s.P[(size_t)t[0]], s.P[(size_t)t[2]] - s.P[(size_t)t[0]]));
        c.require(norm(rv(f->normal()) - n) <= 50 * eps, "face %d: normal is wrong by %.3g", f->index(), norm(rv(f->normal()) - n));
    }
    // Hole polygons that are flat and convex
    for (size_t h = 0; h < view.holes.size(); h++) {
        const auto &l = view.holes[h];
        V3 n;
        const V3 p0 = s.P[(size_t)l[0]];
        for (size_t i = 0; i < l.size(); i++) n += cross(s.P[(size_t)l[i]] - p0, s.P[(size_t)l[(i + 1) % l.size()]] - p0);
        if (norm(n) < 1e-6 * D * D) continue;
        const V3 u = unit(n);
        bool nice = true;
        for (size_t i = 0; i < l.size() && nice; i++) {
            const V3 a = s.P[(size_t)l[i]], b = s.P[(size_t)l[(i + 1) % l.size()]], d = s.P[(size_t)l[(i + 2) % l.size()]];
            nice = std::fabs(dot(a - p0, u)) < 1e-12 * D && dot(cross(b - a, d - b), u) > 0;
        }
        if (!nice) continue;
        c.label("flat convex hole");
        const tm::Face *f = m.face(view.holeFace[h]);
        const double area = 0.5 * norm(n);
        c.require(std::fabs(f->area() - area) <= 1e-9 * D * D, "convex hole of %zu edges: area %.17g instead of %.17g", l.size(), f->area(), area);
        c.require(norm(rv(f->normal()) - u) < 1e-6, "convex hole: wrong normal");
    }
    // Vertices
    LD sumArea = 0, sumK = 0;
    for (int v = 0; v < (int)s.P.size(); v++) {
        const tm::Vertex *x = m.vertex(v);
        double clear = 0;
        const V3 n = vertexNormal(s, ad, v, &clear);
        const double maxLen = D, vEps = eps * (double)ad.tri[(size_t)v].size();
        (void)maxLen;
        if (clear > 1e-4) {
            const V3 got = rv(x->normal());
            c.require(norm(got - n) <= 50 * vEps / clear + 1e-12, "vertex %d (degree %zu%s): normal is wrong by %.3g", v, ad.nb[(size_t)v].size(),
                      ad.boundary[(size_t)v] ? ", boundary" : "", norm(got - n));
        }
        // Per-triangle part of the vertex area
        for (auto &fk : ad.tri[(size_t)v]) {
            const double want = (double)cornerArea(s, fk.first, fk.second), A = (double)triArea(s, fk.first);
            const double got = x->volonoiArea(m.face(view.triFace[(size_t)fk.first]));
            c.require(std::fabs(got - want) <= 50 * eps * A, "vertex %d: its area in a triangle is %.17g instead of %.17g", v, got, want);
        }
        if (ad.boundary[(size_t)v]) continue;
        const LD area = vertexArea(s, ad, v);
        c.require(std::fabs((double)(x->volonoiArea() - area)) <= 50 * vEps * (double)area, "vertex %d: area %.17g instead of %.17g", v, x->volonoiArea(),
                  (double)area);
        LD angles = 0, lapMag = 0;
        for (auto &fk : ad.tri[(size_t)v]) {
            const Tri &t = s.F[(size_t)fk.first];
            const L3 p(s.P[(size_t)v]), a = L3(s.P[(size_t)t[(size_t)((fk.second + 1) % 3)]]) - p, b = L3(s.P[(size_t)t[(size_t)((fk.second + 2) % 3)]]) - p;
            angles += atan2l(norm(cross(a, b)), dot(a, b));
        }
        const double K = (double)((2 * (LD)PI - angles) / area);
        c.require(std::fabs(x->K() - K) <= 100 * vEps * (10 / (double)area + std::fabs(K)), "vertex %d: Gaussian curvature %.17g instead of %.17g", v, x->K(), K);
        L3 lap;
        for (int j : ad.nb[(size_t)v]) {
            const LD w = cotWeight(s, ad, v, j);
            const L3 e = L3(s.P[(size_t)j]) - L3(s.P[(size_t)v]);
            lap = lap + e * w;
            lapMag += fabsl(w) * norm(e);
        }
        if (clear > 1e-4) {
            const double H = (double)(-dot(lap, L3(n)) / (2 * area));
            c.require(std::fabs(x->H() - H) <= 100 * vEps / clear * (double)(lapMag / area), "vertex %d: mean curvature %.17g instead of %.17g", v, x->H(), H);
        }
        sumArea += x->volonoiArea();
        sumK += (LD)x->K() * x->volonoiArea();
    }
    if (topo.closed()) {
        const double n = (double)s.P.size();
        c.require(std::fabs((double)sumArea - total) <= 100 * eps * n * total, "vertex areas sum to %.17g, the surface to %.17g", (double)sumArea, total);
        const double want = 2 * PI * topo.euler();
        c.require(std::fabs((double)sumK - want) <= 1000 * eps * n + 1e-9, "curvature integrates to %.17g instead of 2 pi times %d", (double)sumK, topo.euler());
        c.label("integral identities");
    }
    // Similarity
    if (c.g.chance(0.5) && topo.closed()) {
        const Similarity T = randomSimilarity(c.g, D, true);
        const Surf s2 = T(s);
        if (!distinctPositions(s2)) return;
        tm::Mesh m2 = toMesh(s2);
        // Numbering may differ; vertices are found by position
        std::map<V3, int> at;
        for (int i = 0; i < (int)m2.numVertices(); i++) at[rv(m2.vertex(i)->pos())] = i;
        double shift2 = norm(T.t) + T.k * shift;
        const double e2 = 1e-15 * (1 + shift2 / (T.k * shortest)) / (ang * ang) + eps;
        for (int v = 0; v < (int)s.P.size(); v++) {
            double clear = 0;
            vertexNormal(s, ad, v, &clear);
            const tm::Vertex *x = m.vertex(v), *y = m2.vertex(at.at(s2.P[(size_t)v]));
            const double n = (double)ad.nb[(size_t)v].size(), A = x->volonoiArea();
            c.require(std::fabs(y->volonoiArea() / (T.k * T.k) - A) <= 200 * e2 * n * A, "vertex %d: area does not scale", v);
            c.require(std::fabs(y->K() * T.k * T.k - x->K()) <= 400 * e2 * n * (10 / A + std::fabs(x->K())), "vertex %d: Gaussian curvature does not scale", v);
            if (clear > 1e-4) c.require(norm(rv(y->normal()) - T.dir(rv(x->normal()))) <= 200 * e2 * n / clear + 1e-12, "vertex %d: normal does not turn along", v);
        }
        c.label("similarity");
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P17";
    cfg.rule = "random manifolds, some after edits, all faces and vertices compared with extended-precision definitions; non-trivial: no needle triangle";
    cfg.prop = prop;
    cfg.quickCases = 30000;
    cfg.thoroughCases = 300000;
    cfg.assumptions = { "no angle below 0.002 rad; curvature and vertex area claimed for interior vertices" };
    return pbt::run(cfg, argc, argv);
}
