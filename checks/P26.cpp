// P26: clones are independent and mesh statistics equal their definitions.
#include "discrete.h"
#include "edits.h"
using namespace ref;

static void compare(Case &c, const tm::Mesh &a, const Surf &s, const char *what) {
    const std::string d = diffTriangles(triangleSet(surfOf(a)), triangleSet(s), "mesh", "original");
    c.require(d.empty(), "%s: %s", what, d.c_str());
}

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 250 : 100;
    Made made = randomSurface(c, o);
    tm::Mesh m = toMesh(made.s);
    if (c.g.chance(0.5)) randomHistory(c, m, 20);
    const View v0 = viewOf(m);
    const Surf &s = v0.s;
    if (!distinctPositions(s)) throw Discard();
    const Topo topo = topology(s);
    const double ang = minAngle(s);

    // Statistics
    std::set<Edge> edges;
    for (auto &e : edgeMap(s)) edges.insert(Edge(std::min(e.first.first, e.first.second), std::max(e.first.first, e.first.second)));
    LD len = 0, dih = 0, area = 0;
    const auto em = edgeMap(s);
    for (const Edge &e : edges) {
        const L3 a(s.P[(size_t)e.first]), b(s.P[(size_t)e.second]);
        len += norm(a - b);
        if (topo.closed()) {
            const L3 p(s.P[(size_t)other(s.F[(size_t)em.at(e)], e.first, e.second)]);
            const L3 q(s.P[(size_t)other(s.F[(size_t)em.at(Edge(e.second, e.first))], e.first, e.second)]);
            const L3 d = b - a;
            const LD dd = dot(d, d);
            const L3 u = (p - a) - d * (dot(p - a, d) / dd), w = (q - a) - d * (dot(q - a, d) / dd);
            dih += atan2l(norm(cross(u, w)), dot(u, w));
        }
    }
    for (size_t f = 0; f < s.F.size(); f++) area += triArea(s, (int)f);
    len /= (LD)edges.size();
    dih /= (LD)edges.size();
    area /= (LD)s.F.size();
    double shift = 0;
    for (const V3 &p : s.P) shift = std::max(shift, norm(p));
    c.require(std::fabs((double)(m.getMeanEdgeLength() - len)) <= 1e-12 * (shift + (double)len), "mean edge length %.17g instead of %.17g", m.getMeanEdgeLength(), (double)len);
    if (topo.closed()) {
        c.require(std::fabs((double)(m.getMeanFaceArea() - area)) <= 1e-12 * (double)(shift * shift + area), "mean face area %.17g instead of %.17g", m.getMeanFaceArea(), (double)area);
        if (ang > 1e-3) {
            c.require(std::fabs((double)(m.getMeanDihedralAngle() - dih)) <= 1e-6, "mean dihedral angle %.17g instead of %.17g", m.getMeanDihedralAngle(), (double)dih);
            c.label("dihedral");
        }
    }
    {
        const View v = viewOf(m);
        c.require(v.s.P == s.P && v.s.F == s.F && v.holes == v0.holes, "reading statistics changed the mesh");
    }
    // Clones
    tm::Mesh k = m.clone();
    requireValid(c, k, "of a clone");
    compare(c, k, s, "clone");
    c.require(k.numFaces() == m.numFaces() && k.numVertices() == m.numVertices() && k.numEdges() == m.numEdges(), "clone has other element counts");
    {
        const View v = viewOf(m);
        c.require(v.s.P == s.P && v.s.F == s.F, "cloning changed the original");
    }
    const bool first = c.g.chance(0.5);
    tm::Mesh &changed = first ? m : k;
    tm::Mesh &other_ = first ? k : m;
    const View keep = viewOf(other_);
    std::vector<char> lockedBefore;
    for (int i = 0; i < (int)other_.numVertices(); i++) lockedBefore.push_back(other_.vertex(i)->isLocked());
    const int how = c.g.pick(4);
    if (how == 0 || how == 3) {
        const int i = c.g.pick((int)changed.numVertices());
        changed.vertex(i)->setPos(changed.vertex(i)->pos() + Vec3(1.0, 2.0, 3.0));
        changed.vertex(c.g.pick((int)changed.numVertices()))->lock();
        c.label("vertex moved");
    }
    if (how == 1 || how == 3) {
        randomHistory(c, changed, 10);
        c.label("edited");
    }
    if (how == 2) {
        changed.construct(verticesOf(tetrahedron()), indicesOf(tetrahedron()));
        c.label("rebuilt");
    }
    requireValid(c, other_, "of the mesh that was left alone");
    const View now = viewOf(other_);
    c.require(now.s.P == keep.s.P && now.s.F == keep.s.F && now.holes == keep.holes, "changing the %s changed the %s", first ? "original" : "clone", first ? "clone" : "original");
    for (int i = 0; i < (int)other_.numVertices(); i++) c.require((bool)lockedBefore[(size_t)i] == other_.vertex(i)->isLocked(), "a lock went over to the other mesh");
    c.nontrivial = true;
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P26";
    cfg.rule = "random manifolds, half of them after edits: statistics against sums over edges and faces, then a clone and a change to one of the two; "
               "every case that is not discarded is non-trivial";
    cfg.prop = prop;
    cfg.quickCases = 50000;
    cfg.thoroughCases = 500000;
    return pbt::run(cfg, argc, argv);
}
