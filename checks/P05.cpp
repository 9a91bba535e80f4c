// P05: each edit performs exactly its local change, and a refused edit changes nothing.
#include "edits.h"
using namespace ref;

static std::vector<std::vector<V3>> holeLoops(const View &v) {
    std::vector<std::vector<V3>> r;
    for (const auto &h : v.holes) {
        std::vector<V3> p;
        for (int i : h) p.push_back(v.s.P[(size_t)i]);
        std::rotate(p.begin(), std::min_element(p.begin(), p.end()), p.end());
        r.push_back(p);
    }
    std::sort(r.begin(), r.end());
    return r;
}
static void rename(std::vector<Tri3> &t, const V3 &a, const V3 &b) {
    for (Tri3 &x : t) {
        for (V3 &p : x) {
            if (p == a) p = b;
        }
        x = canon(x);
    }
    std::sort(t.begin(), t.end());
}
static bool take(std::vector<Tri3> &t, Tri3 x) {
    x = canon(x);
    auto it = std::find(t.begin(), t.end(), x);
    if (it == t.end()) return false;
    t.erase(it);
    return true;
}

// Would moving `gone` onto `kept` turn over or flatten a triangle around `gone` (with a margin)?
static bool safeMove(const tm::Vertex *gone, const tm::Vertex *kept) {
    std::vector<V3> ring;
    for (auto it = gone->v_begin(); it != gone->v_end(); ++it) ring.push_back(rv(it->pos()));
    const V3 p = rv(gone->pos()), q = rv(kept->pos());
    V3 n;
    double scale = 0;
    for (size_t i = 0; i < ring.size(); i++) {
        const V3 a = ring[i], b = ring[(i + 1) % ring.size()];
        n += cross(a - p, b - p);
        scale = std::max(scale, std::max(norm(a - p), norm(a - q)));
    }
    if (norm(n) < 1e-3 * scale * scale) return false;
    n = unit(n);
    for (size_t i = 0; i < ring.size(); i++) {
        const V3 a = ring[i], b = ring[(i + 1) % ring.size()];
        if (a == q || b == q) continue;
        if (dot(n, cross(a - q, b - q)) < 1e-6 * scale * scale) return false;
    }
    return true;
}

static void prop(Case &c) {
    Options o;
    o.maxFaces = 90;
    Made made = randomSurface(c, o);
    tm::Mesh m = toMesh(made.s);
    randomHistory(c, m, c.thorough ? 50 : 20);
    const int steps = (int)c.g.integer(1, 6);
    for (int step = 0; step < steps; step++) {
        const View before = viewOf(m);
        if (!distinctPositions(before.s)) throw Discard();
        const auto oldTri = triangleSet(before.s);
        const auto oldLoops = holeLoops(before);

        const int kind = c.g.weighted({ 6, 6, 8, 1 });
        if (kind == COLLAPSE_FACE) {
            std::vector<int> tri;
            for (int i = 0; i < (int)m.numFaces(); i++) {
                if (!m.face(i)->isHole()) tri.push_back(i);
            }
            const size_t nv = m.numVertices();
            const bool ok = m.collapseFace(m.face(tri[(size_t)c.g.pick((int)tri.size())]));
            const size_t gone = nv - m.numVertices();
            requireValid(c, m, "after collapsing a triangle");
            c.require(ok == (gone == 2) && gone <= 2, "collapse of a triangle removed %zu vertices and reported %s", gone, ok ? "success" : "failure");
            const View after = viewOf(m);
            std::set<V3> old(before.s.P.begin(), before.s.P.end());
            for (const V3 &x : after.s.P) c.require(old.count(x), "collapse of a triangle moved a vertex");
            c.label(ok ? "triangle collapsed" : "triangle not collapsed");
            continue;
        }
        tm::Halfedge *he = nullptr;
        // Sometimes aim at a boundary edge, or at an edge near the boundary
        if (c.g.chance(0.15) && !before.holes.empty()) {
            std::vector<int> b;
            for (int i = 0; i < (int)m.numHalfedges(); i++) {
                tm::Halfedge *h = m.halfedge(i);
                if (h->isBoundary() || h->src()->isBoundary()) b.push_back(i);
            }
            he = m.halfedge(b[(size_t)c.g.pick((int)b.size())]);
        } else {
            he = m.halfedge(c.g.pick((int)m.numHalfedges()));
        }
        const V3 p = rv(he->src()->pos()), q = rv(he->dst()->pos());
        const bool boundary = he->isBoundary() || he->rev()->isBoundary() || he->face()->isHole() || he->rev()->face()->isHole();
        const tm::Vertex *u = he->src(), *w = he->dst();
        V3 a, b;
        bool mustAccept = false;
        if (!boundary) {
            const tm::Vertex *va = he->next()->dst(), *vb = he->rev()->next()->dst();
            a = rv(va->pos());
            b = rv(vb->pos());
            bool joined = false;
            for (auto it = va->v_begin(); it != va->v_end(); ++it) joined = joined || it.ptr() == vb;
            if (kind == SPLIT) mustAccept = true;
            if (kind == FLIP) mustAccept = !joined && u->degree() >= 5 && w->degree() >= 5;
            if (kind == COLLAPSE) {
                std::set<const tm::Vertex *> nu, nw;
                for (auto it = u->v_begin(); it != u->v_end(); ++it) nu.insert(it.ptr());
                int shared = 0;
                for (auto it = w->v_begin(); it != w->v_end(); ++it) shared += nu.count(it.ptr()) != 0;
                mustAccept = shared == 2 && u->degree() >= 4 && w->degree() >= 4 && va->degree() >= 5 && vb->degree() >= 5 &&
                             !u->isBoundary() && !w->isBoundary() && !he->face()->isBoundary() && !he->rev()->face()->isBoundary() &&
                             safeMove(u, w) && safeMove(w, u);
            }
        }
        // The ring of each end, and how many neighbours it has
        std::vector<V3> ring[2];
        for (auto it = u->v_begin(); it != u->v_end(); ++it) ring[0].push_back(rv(it->pos()));
        for (auto it = w->v_begin(); it != w->v_end(); ++it) ring[1].push_back(rv(it->pos()));
        const bool rim[2] = { u->isBoundary(), w->isBoundary() };
        const size_t nv = m.numVertices(), nf = m.numFaces(), nh = m.numHalfedges();
        const bool ok = kind == FLIP ? m.flipHE(he) : kind == SPLIT ? m.splitHE(he) : m.collapseHE(he);
        c.label(pbt::fmt("%s %s%s", editName(kind), ok ? "accepted" : "refused", boundary ? " (boundary)" : ""));
        if (mustAccept) c.label(pbt::fmt("%s has to be possible", editName(kind)));
        c.require(!(boundary && ok), "%s of a boundary edge was accepted", editName(kind));
        c.require(!(mustAccept && !ok), "%s of a suitable interior edge was refused", editName(kind));
        requireValid(c, m, ok ? "after an accepted edit" : "after a refused edit");
        const View after = viewOf(m);
        const auto newTri = triangleSet(after.s);
        const auto newLoops = holeLoops(after);
        if (!ok) {
            c.require(newTri == oldTri && newLoops == oldLoops && after.s.P == before.s.P && m.numVertices() == nv && m.numFaces() == nf &&
                          m.numHalfedges() == nh,
                      "a refused %s changed the mesh", editName(kind));
            continue;
        }
        c.nontrivial = true;
        if (kind != SPLIT) {
            for (int i = 0; i < (int)after.s.P.size(); i++) {
                const V3 x = after.s.P[(size_t)i];
                if (!(x == p || x == q || (kind == COLLAPSE && (x == a || x == b)))) continue;
                c.require(m.vertex(i)->degree() >= 4, "%s left a vertex with %d neighbours", editName(kind), m.vertex(i)->degree());
            }
        }
        auto want = oldTri;
        bool found = take(want, Tri3{ p, q, a });
        found = take(want, Tri3{ q, p, b }) && found;
        c.require(found, "internal: triangles at the edge not found");
        std::string d;
        if (kind == FLIP) {
            want.push_back(canon(Tri3{ a, p, b }));
            want.push_back(canon(Tri3{ b, q, a }));
            std::sort(want.begin(), want.end());
            d = diffTriangles(want, newTri, "expected", "mesh");
            c.require(d.empty(), "flip: %s", d.c_str());
            c.require(newLoops == oldLoops, "flip changed a hole");
        } else if (kind == SPLIT) {
            if (!distinctPositions(after.s)) throw Discard();  // the midpoint coincides with another vertex
            std::set<V3> oldP(before.s.P.begin(), before.s.P.end());
            std::vector<V3> added;
            for (const V3 &x : after.s.P) {
                if (!oldP.count(x)) added.push_back(x);
            }
            c.require(m.numVertices() == nv + 1 && added.size() == 1, "split added %zu vertices", m.numVertices() - nv);
            const V3 mid = (p + q) * 0.5;
            c.require(norm(added[0] - mid) <= 1e-13 * (norm(p) + norm(q)), "split vertex is not the midpoint");
            const V3 x = added[0];
            want.push_back(canon(Tri3{ p, x, a }));
            want.push_back(canon(Tri3{ x, q, a }));
            want.push_back(canon(Tri3{ q, x, b }));
            want.push_back(canon(Tri3{ x, p, b }));
            std::sort(want.begin(), want.end());
            d = diffTriangles(want, newTri, "expected", "mesh");
            c.require(d.empty(), "split: %s", d.c_str());
            c.require(newLoops == oldLoops, "split changed a hole");
        } else {
            auto w1 = want, w2 = want;
            rename(w1, q, p);
            rename(w2, p, q);
            c.require(newTri == w1 || newTri == w2, "collapse: %s", diffTriangles(w1, newTri, "expected", "mesh").c_str());
            const V3 gone = newTri == w1 ? q : p, kept = newTri == w1 ? p : q;
            const int g = gone == p ? 0 : 1;
            c.require(ring[g].size() >= ring[1 - g].size(), "collapse removed the end with %zu neighbours and kept the one with %zu", ring[g].size(),
                      ring[1 - g].size());
            if (!rim[g]) {
                V3 n;
                double scale = 0;
                for (size_t i = 0; i < ring[g].size(); i++) {
                    const V3 x = ring[g][i], y = ring[g][(i + 1) % ring[g].size()];
                    n += cross(x - gone, y - gone);
                    scale = std::max(scale, std::max(norm(x - gone), norm(x - kept)));
                }
                if (norm(n) > 1e-6 * scale * scale) {
                    n = unit(n);
                    for (size_t i = 0; i < ring[g].size(); i++) {
                        const V3 x = ring[g][i], y = ring[g][(i + 1) % ring[g].size()];
                        c.require(dot(n, cross(x - kept, y - kept)) > -1e-9 * scale * scale, "collapse turned a triangle over");
                    }
                    c.label("collapse turned nothing over");
                }
            }
            auto wl = oldLoops;
            for (auto &l : wl) {
                for (V3 &x : l) {
                    if (x == gone) x = kept;
                }
                std::rotate(l.begin(), std::min_element(l.begin(), l.end()), l.end());
            }
            std::sort(wl.begin(), wl.end());
            c.require(newLoops == wl, "collapse changed a hole otherwise than by the merge");
            c.require(m.numVertices() == nv - 1, "collapse removed %zu vertices", nv - m.numVertices());
        }
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P05";
    cfg.rule = "random manifold after a random edit history, then up to six single edits compared with the same edit on the indexed "
               "triangles; non-trivial: at least one accepted edit";
    cfg.prop = prop;
    cfg.quickCases = 25000;
    cfg.thoroughCases = 300000;
    return pbt::run(cfg, argc, argv);
}
