// P03: circulators visit each incident element exactly once, in order, and agree with each other.
#include "edits.h"
using namespace ref;

template <typename It, typename F>
static std::vector<F> walk(It b, It e, size_t limit, F (*get)(It &), bool post) {
    std::vector<F> r;
    It it = b;
    while (it != e) {
        r.push_back(get(it));
        if (r.size() > limit) throw pbt::Failure("circulation does not end");
        if (post) {
            It old = it++;
            if (get(old) != r.back()) throw pbt::Failure("post-increment does not return the old position");
        } else {
            It &self = ++it;
            if (&self != &it) throw pbt::Failure("pre-increment does not return itself");
        }
    }
    return r;
}
template <typename It, typename E>
static const E *getPtr(It &it) {
    const E *a = it.ptr();
    const E *b = &*it;
    const E *d = it.operator->();
    if (a != b || a != d) throw pbt::Failure("dereferencing gives another element than ptr()");
    return a;
}
template <typename E, typename It>
static std::vector<const E *> around(It b, It e, size_t limit, bool post) {
    return walk<It, const E *>(b, e, limit, &getPtr<It, E>, post);
}

static void prop(Case &c) {
    Options o;
    o.maxFaces = 120;
    Made made = randomSurface(c, o);
    tm::Mesh m = toMesh(made.s);
    randomHistory(c, m, c.thorough ? 60 : 25);
    c.nontrivial = m.numFaces() >= 4;
    const tm::Mesh &cm = m;
    const size_t lim = m.numHalfedges() + 1;
    const bool post = c.g.chance(0.5);

    // Reference: outgoing halfedges by source, from the links only
    std::map<const tm::Vertex *, std::vector<const tm::Halfedge *>> out;
    std::map<const tm::Face *, std::vector<const tm::Halfedge *>> of;
    for (int i = 0; i < (int)m.numHalfedges(); i++) {
        const tm::Halfedge *h = cm.halfedge(i);
        out[h->src()].push_back(h);
        of[h->face()].push_back(h);
        c.require(h->dst() == h->rev()->src() && h->dst() == h->next()->src(), "halfedge end and link disagree");
        c.require(h->prev()->next() == h, "previous of halfedge %d does not lead to it", i);
        c.require(std::fabs(h->length() - norm(rv(h->src()->pos()) - rv(h->dst()->pos()))) <= 1e-12 * (1 + h->length()),
                  "edge length differs from the distance of its ends");
        c.require(h->isLocked() == (h->src()->isLocked() && h->dst()->isLocked()), "halfedge lock differs from its ends");
    }
    for (int i = 0; i < (int)m.numVertices(); i++) {
        tm::Vertex *v = m.vertex(i);
        const tm::Vertex *cv = v;
        auto he = around<tm::Halfedge>(v->he_begin(), v->he_end(), lim, post);
        auto hc = around<tm::Halfedge>(cv->he_begin(), cv->he_end(), lim, post);
        auto ve = around<tm::Vertex>(v->v_begin(), v->v_end(), lim, post);
        auto vc = around<tm::Vertex>(cv->v_begin(), cv->v_end(), lim, post);
        auto fe = around<tm::Face>(v->f_begin(), v->f_end(), lim, post);
        auto fc = around<tm::Face>(cv->f_begin(), cv->f_end(), lim, post);
        c.require(he == hc && ve == vc && fe == fc, "vertex %d: const and non-const circulation differ", i);
        const size_t n = out[v].size();
        c.require(he.size() == n && ve.size() == n && fe.size() == n, "vertex %d with %zu edges: visits %zu edges, %zu vertices, %zu faces",
                  i, n, he.size(), ve.size(), fe.size());
        c.require(v->degree() == (int)n, "vertex %d: degree %d instead of %zu", i, v->degree(), n);
        std::set<const tm::Halfedge *> a(he.begin(), he.end()), b(out[v].begin(), out[v].end());
        c.require(a == b, "vertex %d: does not visit exactly its outgoing halfedges", i);
        bool boundary = false;
        std::set<const tm::Face *> fs(fe.begin(), fe.end()), fw;
        std::set<const tm::Vertex *> vs(ve.begin(), ve.end()), vw;
        for (size_t k = 0; k < n; k++) {
            // Clockwise, as documented: the next edge is found across the opposite halfedge.
            c.require(he[(k + 1) % n] == he[k]->rev()->next(), "vertex %d: edges are not visited in clockwise order", i);
            boundary = boundary || he[k]->isBoundary();
            fw.insert(he[k]->face());
            vw.insert(he[k]->dst());
        }
        c.require(fs == fw && fs.size() == n, "vertex %d: does not visit each incident face once", i);
        c.require(vs == vw && vs.size() == n, "vertex %d: does not visit each neighbour once", i);
        // Same rotational order: consecutive neighbours span consecutive faces
        size_t s0 = 0, s1 = 0;
        while (s0 < n && he[s0]->dst() != ve[0]) s0++;
        while (s1 < n && he[s1]->face() != fe[0]) s1++;
        c.require(s0 < n && s1 < n, "vertex %d: circulators start at foreign elements", i);
        for (size_t k = 0; k < n; k++) {
            c.require(ve[k] == he[(s0 + k) % n]->dst(), "vertex %d: vertices are not visited in clockwise order", i);
            c.require(fe[k] == he[(s1 + k) % n]->face(), "vertex %d: faces are not visited in clockwise order", i);
        }
        c.require(v->isBoundary() == boundary, "vertex %d: boundary answer differs from its edges", i);
    }
    for (int i = 0; i < (int)m.numFaces(); i++) {
        tm::Face *f = m.face(i);
        const tm::Face *cf = f;
        auto he = around<tm::Halfedge>(f->he_begin(), f->he_end(), lim, post);
        auto hc = around<tm::Halfedge>(cf->he_begin(), cf->he_end(), lim, post);
        auto ve = around<tm::Vertex>(f->v_begin(), f->v_end(), lim, post);
        auto vc = around<tm::Vertex>(cf->v_begin(), cf->v_end(), lim, post);
        auto fe = around<tm::Face>(f->f_begin(), f->f_end(), lim, post);
        auto fc = around<tm::Face>(cf->f_begin(), cf->f_end(), lim, post);
        c.require(he == hc && ve == vc && fe == fc, "face %d: const and non-const circulation differ", i);
        const size_t n = of[f].size();
        c.require(he.size() == n && ve.size() == n && fe.size() == n, "face %d with %zu corners: visits %zu edges, %zu vertices, %zu faces",
                  i, n, he.size(), ve.size(), fe.size());
        c.require(f->numCorners() == (int)n, "face %d: %d corners instead of %zu", i, f->numCorners(), n);
        bool boundary = false, hole = true, locked = false;
        size_t s0 = 0;
        while (s0 < n && he[s0]->src() != ve[0]) s0++;
        c.require(s0 < n, "face %d: vertex circulator starts at a foreign vertex", i);
        bool ring = false;
        for (size_t k = 0; k < n; k++) {
            c.require(he[k]->face() == f, "face %d: visits an edge of another face", i);
            c.require(he[(k + 1) % n] == he[k]->next(), "face %d: edges are not visited in order", i);
            c.require(ve[k] == he[(s0 + k) % n]->src(), "face %d: corners are not visited in order", i);
            boundary = boundary || he[k]->isBoundary();
            hole = hole && he[k]->isBoundary();
            locked = locked || ve[k]->isLocked();
        }
        for (size_t s1 = 0; s1 < n && !ring; s1++) {
            ring = true;
            for (size_t k = 0; k < n && ring; k++) ring = fe[k] == he[(s1 + k) % n]->rev()->face();
        }
        c.require(ring, "face %d: neighbours are not visited in order", i);
        c.require(f->isBoundary() == boundary, "face %d: boundary answer differs from its edges", i);
        c.require(!f->isHole() || hole, "face %d: hole answer although an edge is interior", i);
        c.require(f->isLocked() == locked, "face %d: lock answer differs from its corners", i);
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P03";
    cfg.rule = "random manifold, half of them after a random edit history; every vertex and face circulated; non-trivial: at least 4 faces";
    cfg.prop = prop;
    cfg.quickCases = 60000;
    cfg.thoroughCases = 600000;
    return pbt::run(cfg, argc, argv);
}
