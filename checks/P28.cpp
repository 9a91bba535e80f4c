// P28: locks, lengths, corners and identities of mesh elements follow their vertices and links.
#include "edits.h"
#include "geom.h"
#include "core/triangle.h"
using namespace ref;

static void inspect(Case &c, tm::Mesh &m, const std::map<V3, bool> &locked) {
    const int nv = (int)m.numVertices(), nh = (int)m.numHalfedges(), nf = (int)m.numFaces();
    auto at = [&](const tm::Vertex *v) { return locked.at(rv(v->pos())); };
    for (int i = 0; i < nv; i++) {
        const tm::Vertex *v = m.vertex(i);
        c.require(v->isLocked() == at(v), "vertex %d is %s", i, v->isLocked() ? "locked without being asked to" : "no longer locked");
    }
    for (int i = 0; i < nh; i++) {
        const tm::Halfedge *h = m.halfedge(i);
        c.require(h->isLocked() == (at(h->src()) && at(h->dst())), "edge %d: wrong lock state", i);
        const double want = norm(rv(h->src()->pos()) - rv(h->dst()->pos()));
        c.require(std::fabs(h->length() - want) <= 1e-13 * want, "edge %d has length %.17g instead of %.17g", i, h->length(), want);
        c.require(h->prev()->next() == h, "edge %d does not follow its predecessor", i);
    }
    for (int i = 0; i < nf; i++) {
        const tm::Face *f = m.face(i);
        std::vector<const tm::Halfedge *> hs;
        // from the links, not the circulators
        const tm::Halfedge *h0 = nullptr;
        for (auto it = f->he_begin(); it != f->he_end();) {
            h0 = it.ptr();
            break;
        }
        for (const tm::Halfedge *h = h0; hs.empty() || h != h0; h = h->next()) hs.push_back(h);
        bool any = false, rim = false;
        for (const tm::Halfedge *h : hs) {
            any = any || at(h->src());
            rim = rim || h->rev()->face()->isHole() || h->face()->isHole();
        }
        c.require(f->isLocked() == any, "face %d: wrong lock state", i);
        c.require(f->isBoundary() == rim, "face %d: wrong boundary state", i);
        c.require(f->numCorners() == (int)hs.size(), "face %d has %d corners instead of %zu", i, f->numCorners(), hs.size());
        if (hs.size() == 3) {
            const V3 p = rv(hs[0]->src()->pos()), q = rv(hs[1]->src()->pos()), r = rv(hs[2]->src()->pos());
            if (triangleCondition(p, q, r) < 1e4) {
                const tm::Triangle t = f->toTriangle();
                const double size = norm(p - q) + norm(q - r) + norm(r - p) + norm(p);
                const V3 x = p + (q - p) * c.g.real(-2, 3) + (r - p) * c.g.real(-2, 3);
                for (const V3 &y : { p, q, r, x }) {
                    const double want = (double)triangleDistance(y, p, q, r), got = t.distance(tv(y));
                    c.require(std::fabs(got - want) <= 1e-6 * size, "face %d hands out another triangle (%.6g instead of %.6g away)", i, got, want);
                }
            }
        } else {
            bool refused = false;
            try {
                f->toTriangle();
            } catch (const std::runtime_error &) {
                refused = true;
            }
            c.require(refused, "a face of %zu corners was handed out as a triangle", hs.size());
            c.label("polygon refused as triangle");
        }
    }
    // Comparison tells elements apart
    for (int k = 0; k < 8; k++) {
        const int a = c.g.pick(nv), b = c.g.pick(nv), d = c.g.pick(nh), e = c.g.pick(nh), f = c.g.pick(nf), g = c.g.pick(nf);
        c.require((*m.vertex(a) == *m.vertex(b)) == (a == b), "vertices %d and %d compare wrongly", a, b);
        c.require((*m.halfedge(d) == *m.halfedge(e)) == (d == e), "edges %d and %d compare wrongly", d, e);
        c.require((*m.face(f) == *m.face(g)) == (f == g), "faces %d and %d compare wrongly", f, g);
        c.require(*m.vertex(a) == *m.vertex(a) && *m.halfedge(d) == *m.halfedge(d) && *m.face(f) == *m.face(f), "an element differs from itself");
    }
}

static void prop(Case &c) {
    Options o;
    o.maxFaces = 60;
    Made made = randomSurface(c, o);
    tm::Mesh m = toMesh(made.s);
    if (!distinctPositions(viewOf(m).s)) throw Discard();
    std::map<V3, bool> locked;
    for (int i = 0; i < (int)m.numVertices(); i++) locked[rv(m.vertex(i)->pos())] = false;
    inspect(c, m, locked);
    const int steps = (int)c.g.integer(1, 10);
    int changed = 0, edits = 0;
    for (int s = 0; s < steps; s++) {
        if (c.g.chance(0.6)) {
            const int n = (int)c.g.integer(1, 1 + (int)m.numVertices() / 2);
            for (int k = 0; k < n; k++) {
                tm::Vertex *v = m.vertex(c.g.pick((int)m.numVertices()));
                const bool on = c.g.chance(0.6);
                if (on) v->lock();
                else v->unlock();
                bool &now = locked[rv(v->pos())];
                changed += now != on;
                now = on;
            }
        } else {
            EditCounts n;
            edits += randomEdit(c, m, n, { 3, 3, 3, 1 }) >= 0;
            const View v = viewOf(m);
            if (!distinctPositions(v.s)) throw Discard();
            std::map<V3, bool> next;
            for (const V3 &p : v.s.P) {
                auto it = locked.find(p);
                next[p] = it != locked.end() && it->second;
                if (it == locked.end()) c.label("new vertex");
            }
            locked = next;
        }
        inspect(c, m, locked);
    }
    c.nontrivial = changed > 0;
    if (edits) c.label("edited");
    if (edits && changed) c.label("locked and edited");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P28";
    cfg.rule = "random manifold, up to ten rounds of locking, unlocking and edits, all elements inspected after each; non-trivial: some lock changed";
    cfg.prop = prop;
    cfg.quickCases = 30000;
    cfg.thoroughCases = 300000;
    return pbt::run(cfg, argc, argv);
}
