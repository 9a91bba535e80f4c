// Between the model and tinymesh, through public interfaces only.
#pragma once

#include <memory>
#include <unordered_map>
#include <unordered_set>

#include "core/mesh.h"
#include "core/vertex.h"
#include "core/halfedge.h"
#include "core/face.h"
#include "refmesh.h"

#ifndef ASAN_EXTRA
#define ASAN_EXTRA ""
#endif
#if defined(__SANITIZE_ADDRESS__)
extern "C" inline __attribute__((used, visibility("default"))) const char *__asan_default_options() {
    return "abort_on_error=1:detect_leaks=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=8192" ASAN_EXTRA;
}
#endif

namespace ref {

namespace tm = tinymesh;

inline Vec3 tv(const V3 &p) { return Vec3(p.x, p.y, p.z); }
inline V3 rv(const Vec3 &p) { return V3(p[0], p[1], p[2]); }

inline std::vector<Vec3> verticesOf(const Surf &s) {
    std::vector<Vec3> r;
    for (const V3 &p : s.P) r.push_back(tv(p));
    return r;
}
inline std::vector<uint32_t> indicesOf(const Surf &s) {
    std::vector<uint32_t> r;
    for (const Tri &f : s.F) {
        for (int v : f) r.push_back((uint32_t)v);
    }
    return r;
}
inline tm::Mesh toMesh(const Surf &s) { return tm::Mesh(verticesOf(s), indicesOf(s)); }

// What a mesh looks like from outside, indexed by its own vertex numbers.
struct View {
    Surf s;                               // triangles (faces that are not holes)
    std::vector<int> triFace;             // face number of each triangle
    std::vector<std::vector<int>> holes;  // vertex numbers along each hole face
    std::vector<int> holeFace;
};

inline View viewOf(const tm::Mesh &m) {
    View v;
    for (int i = 0; i < (int)m.numVertices(); i++) v.s.P.push_back(rv(m.vertex(i)->pos()));
    for (int i = 0; i < (int)m.numFaces(); i++) {
        const tm::Face *f = m.face(i);
        std::vector<int> c;
        for (auto it = f->v_begin(); it != f->v_end(); ++it) {
            c.push_back(it->index());
            if (c.size() > m.numHalfedges()) throw pbt::Failure("face circulation does not end");
        }
        if (f->isHole()) {
            v.holes.push_back(c);
            v.holeFace.push_back(i);
        } else {
            if (c.size() != 3) throw pbt::Failure(pbt::fmt("face %d has %zu corners but is not a hole", i, c.size()));
            v.s.F.push_back({ c[0], c[1], c[2] });
            v.triFace.push_back(i);
        }
    }
    return v;
}

// Full structural check.  Returns an empty string if the mesh is a valid oriented manifold.
inline std::string structureError(const tm::Mesh &m, bool simple = true) {
    using pbt::fmt;
    const int nv = (int)m.numVertices(), nh = (int)m.numHalfedges(), nf = (int)m.numFaces();
    std::unordered_map<const tm::Vertex *, int> vid;
    std::unordered_map<const tm::Halfedge *, int> hid;
    std::unordered_map<const tm::Face *, int> fid;
    for (int i = 0; i < nv; i++) {
        if (!m.vertex(i)) return fmt("vertex %d is null", i);
        if (m.vertex(i)->index() != i) return fmt("vertex %d has index %d", i, m.vertex(i)->index());
        vid[m.vertex(i)] = i;
    }
    for (int i = 0; i < nh; i++) {
        if (!m.halfedge(i)) return fmt("halfedge %d is null", i);
        if (m.halfedge(i)->index() != i) return fmt("halfedge %d has index %d", i, m.halfedge(i)->index());
        hid[m.halfedge(i)] = i;
    }
    for (int i = 0; i < nf; i++) {
        if (!m.face(i)) return fmt("face %d is null", i);
        if (m.face(i)->index() != i) return fmt("face %d has index %d", i, m.face(i)->index());
        fid[m.face(i)] = i;
    }
    if ((int)vid.size() != nv || (int)hid.size() != nh || (int)fid.size() != nf) return "an element is listed twice";

    std::vector<int> src((size_t)nh), nxt((size_t)nh), rev((size_t)nh), fac((size_t)nh);
    for (int i = 0; i < nh; i++) {
        const tm::Halfedge *h = m.halfedge(i);
        auto a = vid.find(h->src());
        auto b = hid.find(h->next());
        auto c = hid.find(h->rev());
        auto d = fid.find(h->face());
        if (a == vid.end()) return fmt("halfedge %d starts at no vertex of the mesh", i);
        if (b == hid.end()) return fmt("successor of halfedge %d is not in the mesh", i);
        if (c == hid.end()) return fmt("opposite of halfedge %d is not in the mesh", i);
        if (d == fid.end()) return fmt("face of halfedge %d is not in the mesh", i);
        src[(size_t)i] = a->second;
        nxt[(size_t)i] = b->second;
        rev[(size_t)i] = c->second;
        fac[(size_t)i] = d->second;
    }
    std::vector<int> indeg((size_t)nh, 0);
    for (int i = 0; i < nh; i++) {
        const size_t I = (size_t)i;
        indeg[(size_t)nxt[I]]++;
        if (rev[I] == i || rev[(size_t)rev[I]] != i) return fmt("opposite of opposite of halfedge %d is not itself", i);
        if (src[(size_t)nxt[I]] != src[(size_t)rev[I]]) return fmt("halfedge %d: end differs from start of its opposite", i);
        if (src[I] == src[(size_t)rev[I]]) return fmt("halfedge %d joins a vertex to itself", i);
        if (fac[(size_t)nxt[I]] != fac[I]) return fmt("halfedge %d and its successor have different faces", i);
        if (m.halfedge(i)->dst() != m.vertex(src[(size_t)rev[I]])) return fmt("halfedge %d: wrong end vertex", i);
        if (m.halfedge(i)->isBoundary() != m.halfedge(rev[I])->isBoundary()) {
            return fmt("halfedge %d and its opposite disagree about being boundary", i);
        }
    }
    for (int i = 0; i < nh; i++) {
        if (indeg[(size_t)i] != 1) return fmt("halfedge %d is the successor of %d halfedges", i, indeg[(size_t)i]);
    }
    // Faces
    std::vector<int> hf((size_t)nf, 0);
    for (int i = 0; i < nh; i++) hf[(size_t)fac[(size_t)i]]++;
    for (int i = 0; i < nf; i++) {
        const tm::Face *f = m.face(i);
        int n = 0, nb = 0;
        for (auto it = f->he_begin(); it != f->he_end(); ++it) {
            if (hid.find(it.ptr()) == hid.end()) return fmt("face %d visits a halfedge outside the mesh", i);
            if (it->face() != f) return fmt("face %d visits a halfedge of another face", i);
            nb += it->isBoundary();
            if (++n > nh) return fmt("face %d: circulation does not end", i);
        }
        if (n != hf[(size_t)i]) return fmt("face %d visits %d of its %d halfedges", i, n, hf[(size_t)i]);
        if (n < 3) return fmt("face %d has only %d corners", i, n);
        const bool hole = f->isHole();
        if (!hole && n != 3) return fmt("face %d has %d corners but is not a hole", i, n);
        if (hole && nb != n) return fmt("hole face %d has an edge that is not boundary", i);
        if ((nb > 0) != f->isBoundary()) return fmt("face %d: wrong boundary answer", i);
    }
    // An edge is boundary exactly if one of its sides is a hole
    for (int i = 0; i < nh; i++) {
        const bool a = m.face(fac[(size_t)i])->isHole(), b = m.face(fac[(size_t)rev[(size_t)i]])->isHole();
        if (m.halfedge(i)->isBoundary() != (a || b)) {
            return fmt("halfedge %d (%d-%d): boundary flag %d but sides hole=%d,%d", i, src[(size_t)i], src[(size_t)rev[(size_t)i]],
                       (int)m.halfedge(i)->isBoundary(), (int)a, (int)b);
        }
    }
    // Vertices
    std::vector<int> outdeg((size_t)nv, 0), bdeg((size_t)nv, 0);
    for (int i = 0; i < nh; i++) {
        outdeg[(size_t)src[(size_t)i]]++;
        bdeg[(size_t)src[(size_t)i]] += m.face(fac[(size_t)i])->isHole();
    }
    for (int i = 0; i < nv; i++) {
        const tm::Vertex *v = m.vertex(i);
        int n = 0;
        bool b = false;
        for (auto it = v->he_begin(); it != v->he_end(); ++it) {
            if (hid.find(it.ptr()) == hid.end()) return fmt("vertex %d visits a halfedge outside the mesh", i);
            if (it->src() != v) return fmt("vertex %d visits a halfedge that starts elsewhere", i);
            b |= it->isBoundary();
            if (++n > nh) return fmt("vertex %d: circulation does not end", i);
        }
        if (n != outdeg[(size_t)i]) return fmt("vertex %d visits %d of its %d outgoing halfedges", i, n, outdeg[(size_t)i]);
        if (n < 2) return fmt("vertex %d has degree %d", i, n);
        if (b != v->isBoundary()) return fmt("vertex %d: wrong boundary answer", i);
        if (bdeg[(size_t)i] > 1) return fmt("vertex %d lies on the boundary %d times", i, bdeg[(size_t)i]);
    }
    if (2 * (int)m.numEdges() != nh) return fmt("%zu edges but %d halfedges", m.numEdges(), nh);
    if (simple) {
        std::set<Edge> seen;
        for (int i = 0; i < nh; i++) {
            if (!seen.insert(Edge(src[(size_t)i], src[(size_t)rev[(size_t)i]])).second) {
                return fmt("edge %d-%d exists twice", src[(size_t)i], src[(size_t)rev[(size_t)i]]);
            }
        }
    }
    return "";
}
inline void requireValid(Case &c, const tm::Mesh &m, const char *when, bool simple = true) {
    const std::string e = structureError(m, simple);
    if (!e.empty()) c.fail("invalid structure %s: %s", when, e.c_str());
}

inline std::string show(const V3 &p) { return pbt::fmt("(%.17g,%.17g,%.17g)", p.x, p.y, p.z); }

// Compares two triangle multisets.
inline std::string diffTriangles(const std::vector<Tri3> &a, const std::vector<Tri3> &b, const char *na, const char *nb) {
    std::vector<Tri3> onlyA, onlyB;
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(onlyA));
    std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(onlyB));
    if (onlyA.empty() && onlyB.empty()) return "";
    std::string r = pbt::fmt("%zu triangles only in %s, %zu only in %s", onlyA.size(), na, onlyB.size(), nb);
    if (!onlyA.empty()) r += pbt::fmt("; e.g. %s: ", na) + show(onlyA[0][0]) + show(onlyA[0][1]) + show(onlyA[0][2]);
    if (!onlyB.empty()) r += pbt::fmt("; e.g. %s: ", nb) + show(onlyB[0][0]) + show(onlyB[0][1]) + show(onlyB[0][2]);
    return r;
}

inline bool sameBits(const V3 &a, const V3 &b) { return a == b; }

inline bool allFinite(const tm::Mesh &m) {
    for (int i = 0; i < (int)m.numVertices(); i++) {
        if (!finite(rv(m.vertex(i)->pos()))) return false;
    }
    return true;
}

// The surface as indexed by the mesh, for use as input of reference computations.
inline Surf surfOf(const tm::Mesh &m) { return viewOf(m).s; }

// A second mesh of the same surface.  Rebuilding renumbers the vertices: to[i] is the number of vertex i there.
struct Twin {
    tm::Mesh m;
    std::vector<int> to;
    explicit Twin(const tm::Mesh &o) : m(o.getVertices(), o.getVertexIndices()) {
        std::map<V3, int> at;
        for (int i = 0; i < (int)m.numVertices(); i++) at[rv(m.vertex(i)->pos())] = i;
        if (at.size() != o.numVertices()) throw Discard();  // coinciding vertices
        for (int i = 0; i < (int)o.numVertices(); i++) to.push_back(at.at(rv(o.vertex(i)->pos())));
        for (int i = 0; i < (int)o.numVertices(); i++)
            if (o.vertex(i)->isLocked()) m.vertex(to[(size_t)i])->lock();
    }
    tm::Halfedge *edge(int a, int b) {  // the halfedge between two vertices numbered as in the original
        for (int j = 0; j < (int)m.numHalfedges(); j++) {
            tm::Halfedge *he = m.halfedge(j);
            if (he->src()->index() == to[(size_t)a] && he->dst()->index() == to[(size_t)b]) return he;
        }
        throw pbt::Failure("an edge is missing in a rebuilt mesh");
    }
    V3 pos(size_t i) const { return rv(m.vertex(to[i])->pos()); }
};

}  // namespace ref
