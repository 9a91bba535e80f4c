// P01: building a mesh from indexed triangles represents exactly that surface.
#include "bridge.h"
using namespace ref;

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 700 : 250;
    Made m = randomSurface(c, o);
    Surf in = m.s;  // what is passed to the library

    // Present the same surface in different ways: duplicated vertices, unused extra vertices.
    const int mode = c.g.weighted({ 4, 2, 2, 2 });
    if (mode == 1 || mode == 3) {  // every corner (or some) gets its own copy
        c.label("duplicated vertices");
        Noise nz(c.g.seedChoice());
        for (Tri &f : in.F) {
            for (int &v : f) {
                if (mode == 3 && nz.below(2)) continue;
                in.P.push_back(in.P[(size_t)v]);
                v = (int)in.P.size() - 1;
            }
        }
        c.describe(", %s corners unshared", mode == 1 ? "all" : "some");
    }
    if (mode == 2 || mode == 3) {  // vertices that no triangle uses
        c.label("unused vertices");
        Noise nz(c.g.seedChoice());
        const int k = 1 + nz.below(5);
        for (int i = 0; i < k; i++) {
            const int at = nz.below((int)in.P.size() + 1);
            in.P.insert(in.P.begin() + at, V3(100 + i, nz.sym(), 7));
            for (Tri &f : in.F) {
                for (int &v : f) v += v >= at;
            }
        }
        c.describe(", %d unused vertices", k);
    }
    c.nontrivial = m.t.F >= 4;

    tm::Mesh mesh;
    const bool viaConstruct = c.g.chance(0.5);
    if (viaConstruct) {
        mesh.construct(verticesOf(in), indicesOf(in));
    } else {
        mesh = tm::Mesh(verticesOf(in), indicesOf(in));
    }

    requireValid(c, mesh, "after construction");
    c.require(mesh.verify(), "self-test reports an invalid mesh");

    const Topo &t = m.t;
    c.require((int)mesh.numVertices() == t.V, "%zu vertices instead of %d", mesh.numVertices(), t.V);
    c.require((int)mesh.numEdges() == t.E, "%zu edges instead of %d", mesh.numEdges(), t.E);
    c.require((int)mesh.numHalfedges() == 2 * t.E, "%zu halfedges instead of %d", mesh.numHalfedges(), 2 * t.E);
    c.require((int)mesh.numFaces() == t.F + (int)t.loops.size(), "%zu faces instead of %d triangles and %zu holes",
              mesh.numFaces(), t.F, t.loops.size());

    const auto want = triangleSet(m.s);
    View v = viewOf(mesh);
    std::string d = diffTriangles(want, triangleSet(v.s), "input", "mesh");
    c.require(d.empty(), "%s", d.c_str());

    // Export
    const auto ev = mesh.getVertices();
    const auto ei = mesh.getVertexIndices();
    c.require(ei.size() == 3 * m.s.F.size(), "export has %zu indices for %zu triangles", ei.size(), m.s.F.size());
    Surf ex;
    for (const auto &p : ev) ex.P.push_back(rv(p));
    for (size_t i = 0; i + 2 < ei.size(); i += 3) {
        for (int k = 0; k < 3; k++) c.require(ei[i + (size_t)k] < ev.size(), "exported index out of range");
        ex.F.push_back({ (int)ei[i], (int)ei[i + 1], (int)ei[i + 2] });
    }
    d = diffTriangles(want, triangleSet(ex), "input", "export");
    c.require(d.empty(), "%s", d.c_str());
    for (size_t i = 0; i < ev.size(); i++) {
        c.require(rv(ev[i]) == rv(mesh.vertex((int)i)->pos()), "exported vertex %zu differs from the mesh vertex", i);
    }

    // Holes follow the boundary loops
    auto loopKey = [](const std::vector<V3> &l) {
        size_t k = 0;
        for (size_t i = 1; i < l.size(); i++) {
            if (l[i] < l[k]) k = i;
        }
        std::vector<V3> r(l.begin() + (long)k, l.end());
        r.insert(r.end(), l.begin(), l.begin() + (long)k);
        return r;
    };
    std::vector<std::vector<V3>> wantLoops, gotLoops;
    for (const auto &l : t.loops) {
        std::vector<V3> p;
        for (int i : l) p.push_back(m.s.P[(size_t)i]);
        wantLoops.push_back(loopKey(p));
    }
    for (const auto &l : v.holes) {
        std::vector<V3> p;
        for (int i : l) p.push_back(v.s.P[(size_t)i]);
        gotLoops.push_back(loopKey(p));
    }
    std::sort(wantLoops.begin(), wantLoops.end());
    std::sort(gotLoops.begin(), gotLoops.end());
    c.require(wantLoops == gotLoops, "hole polygons (%zu) differ from the boundary loops (%zu)", gotLoops.size(), wantLoops.size());

    // Boundary answers
    std::set<V3> onRim;
    for (const auto &l : wantLoops) onRim.insert(l.begin(), l.end());
    for (int i = 0; i < (int)mesh.numVertices(); i++) {
        const V3 p = rv(mesh.vertex(i)->pos());
        c.require(mesh.vertex(i)->isBoundary() == (onRim.count(p) != 0), "vertex %d: wrong boundary answer", i);
        c.require(!mesh.vertex(i)->isLocked(), "new vertex %d is locked", i);
    }

    // The self-test sees a position that is not finite
    if (c.g.chance(0.2)) {
        tm::Vertex *at = mesh.vertex(c.g.pick((int)mesh.numVertices()));
        const Vec3 keep = at->pos();
        double x[3] = { keep.x(), keep.y(), keep.z() };
        static const double odd[] = { NAN, INFINITY, -INFINITY };
        const int which = c.g.pick(3), k = c.g.pick(3);
        x[which] = odd[k];
        at->setPos(Vec3(x[0], x[1], x[2]));
        c.require(!mesh.verify(), "the self-test accepts %g as coordinate %d", odd[k], which);
        at->setPos(keep);
        c.require(mesh.verify(), "the self-test reports an invalid mesh after a position was put right");
        c.label("self-test of a bad position");
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P01";
    cfg.rule = "random oriented manifold (primitives, components, refinements, handles, cut holes), presented with permuted, "
               "duplicated or unused vertices; non-trivial: at least 4 triangles";
    cfg.prop = prop;
    cfg.quickCases = 60000;
    cfg.thoroughCases = 600000;
    return pbt::run(cfg, argc, argv);
}
