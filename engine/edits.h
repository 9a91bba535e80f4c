// Random edit histories on a tinymesh mesh.
#pragma once
#include "bridge.h"

namespace ref {

enum EditKind { FLIP, SPLIT, COLLAPSE, COLLAPSE_FACE };
inline const char *editName(int k) {
    static const char *n[] = { "flip", "split", "collapse", "face collapse" };
    return n[k];
}

struct EditCounts {
    int done[4] = { 0, 0, 0, 0 }, refused[4] = { 0, 0, 0, 0 };
};

// One random edit; the kind is drawn with the given weights.
inline int randomEdit(Case &c, tm::Mesh &m, EditCounts &n, std::initializer_list<int> weights) {
    const int kind = c.g.weighted(weights);
    bool ok = false;
    if (kind == COLLAPSE_FACE) {
        std::vector<int> tri;
        for (int i = 0; i < (int)m.numFaces(); i++) {
            if (!m.face(i)->isHole()) tri.push_back(i);
        }
        if (tri.empty()) throw Discard();
        ok = m.collapseFace(m.face(tri[(size_t)c.g.pick((int)tri.size())]));
    } else {
        tm::Halfedge *he = m.halfedge(c.g.pick((int)m.numHalfedges()));
        ok = kind == FLIP ? m.flipHE(he) : kind == SPLIT ? m.splitHE(he) : m.collapseHE(he);
    }
    (ok ? n.done : n.refused)[kind]++;
    return ok ? kind : -1;
}

// A random history before the part under test.
inline int randomHistory(Case &c, tm::Mesh &m, int maxEdits) {
    EditCounts n;
    int k = 0;
    if (!c.g.chance(0.5)) return 0;
    const int want = (int)c.g.integer(1, maxEdits);
    for (int i = 0; i < want && m.numFaces() < 1500; i++) k += randomEdit(c, m, n, { 3, 3, 3, 1 }) >= 0;
    if (k) {
        c.label("edited before");
        c.describe(", %d edits applied", k);
    }
    return k;
}

}  // namespace ref
