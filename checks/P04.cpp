// P04: any history of edits keeps a valid manifold of the same topology.
#include "edits.h"
using namespace ref;

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.g.chance(0.5) ? 40 : 160;
    Made made = randomSurface(c, o);
    tm::Mesh m = toMesh(made.s);
    requireValid(c, m, "before editing");
    EditCounts n;
    const int steps = (int)c.g.integer(1, c.thorough ? 120 : 40);
    int style = c.g.pick(4);
    int sinceCheck = 0;
    for (int i = 0; i < steps && m.numFaces() < 1500; i++) {
        const int k = style == 0   ? randomEdit(c, m, n, { 3, 3, 3, 1 })
                      : style == 1 ? randomEdit(c, m, n, { 1, 1, 6, 2 })
                      : style == 2 ? randomEdit(c, m, n, { 6, 1, 1, 0 })
                                   : randomEdit(c, m, n, { 1, 4, 1, 0 });
        if (k < 0 && ++sinceCheck < 8) continue;  // refused edits are compared exactly in P05
        sinceCheck = 0;
        c.label(k < 0 ? "refused edits" : editName(k));
        requireValid(c, m, k < 0 ? "after refused edits" : editName(k));
        Surf s = surfOf(m);
        Topo t = topology(s);
        c.require(t.ok, "after %s the triangles are not a manifold: %s", k < 0 ? "refused edits" : editName(k), t.why.c_str());
        c.require(t.euler() == made.t.euler() && t.components == made.t.components && t.loops.size() == made.t.loops.size(),
                  "after %s: Euler characteristic %d, %d components, %zu boundary loops instead of %d, %d, %zu",
                  k < 0 ? "refused edits" : editName(k), t.euler(), t.components, t.loops.size(), made.t.euler(), made.t.components,
                  made.t.loops.size());
    }
    c.describe("; flips %d/%d splits %d/%d collapses %d/%d face collapses %d/%d accepted/refused", n.done[0], n.refused[0], n.done[1],
               n.refused[1], n.done[2], n.refused[2], n.done[3], n.refused[3]);
    c.nontrivial = n.done[0] + n.done[1] + n.done[2] + n.done[3] >= 2;
    requireValid(c, m, "at the end");
    c.require(m.verify(), "the self-test reports an invalid mesh");

    // The exported triangles build a mesh again
    Surf s = surfOf(m);
    if (distinctPositions(s)) {
        tm::Mesh again(m.getVertices(), m.getVertexIndices());
        requireValid(c, again, "after rebuilding");
        std::string d = diffTriangles(triangleSet(s), triangleSet(surfOf(again)), "edited mesh", "rebuilt mesh");
        c.require(d.empty(), "%s", d.c_str());
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P04";
    cfg.rule = "random manifold and up to 40 (thorough 120) random edits; structure and topology checked after every accepted edit; "
               "non-trivial: at least two accepted edits";
    cfg.prop = prop;
    cfg.quickCases = 20000;
    cfg.thoroughCases = 200000;
    return pbt::run(cfg, argc, argv);
}
