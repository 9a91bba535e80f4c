// P24: saving and loading a mesh gives back the same surface.
#include "discrete.h"
#include "edits.h"
#include "files.h"
using namespace ref;

static Surf rounded(const Surf &s) {
    Surf r = s;
    for (V3 &p : r.P) p = V3((double)(float)p.x, (double)(float)p.y, (double)(float)p.z);
    return r;
}

// The triangles of a file, read without the library.
static Surf readOBJ(Case &c, const std::string &text) {
    Surf s;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string tag;
        l >> tag;
        if (tag == "v") {
            V3 p;
            l >> p.x >> p.y >> p.z;
            c.require(!l.fail(), "the file has the line '%s'", line.c_str());
            s.P.push_back(p);
        } else if (tag == "f") {
            Tri t;
            for (int k = 0; k < 3; k++) {
                std::string x;
                l >> x;
                t[(size_t)k] = atoi(x.c_str()) - 1;
                c.require(!l.fail(), "the file has the line '%s'", line.c_str());
            }
            std::string more;
            c.require(!(l >> more), "the file has the line '%s'", line.c_str());
            s.F.push_back(t);
        }
    }
    for (const Tri &t : s.F)
        for (int k = 0; k < 3; k++) c.require(t[(size_t)k] >= 0 && t[(size_t)k] < (int)s.P.size(), "the file has a triangle over vertex %d of %zu", t[(size_t)k] + 1, s.P.size());
    return s;
}

static void same(Case &c, const Surf &a, const Surf &b, const char *what) {
    const std::string d = diffTriangles(triangleSet(a), triangleSet(b), "read", "saved");
    c.require(d.empty(), "%s: %s", what, d.c_str());
}

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 250 : 100;
    Made made = randomSurface(c, o);
    Surf s0 = made.s;
    if (c.g.chance(0.3)) {
        // Coordinates with many significant digits: far from the origin, or very large or small
        const V3 t(c.g.real(-1, 1), c.g.real(-1, 1), c.g.real(-1, 1));
        const double k = c.g.logReal(1e-6, 1e6), far = c.g.logReal(1, 1e3) * s0.diameter();
        for (V3 &p : s0.P) p = (p + t * far) * k;
        c.label("far away");
    }
    if (!distinctPositions(rounded(s0))) throw Discard();
    tm::Mesh m = toMesh(s0);
    if (c.g.chance(0.4)) randomHistory(c, m, 15);
    const View v0 = viewOf(m);
    const Surf s = rounded(v0.s);
    if (!distinctPositions(s)) throw Discard();
    const bool ply = c.g.chance(0.5);
    c.describe(", %s", ply ? "PLY" : "OBJ");
    c.label(ply ? "PLY" : "OBJ");
    c.nontrivial = true;

    if (c.g.chance(0.02)) {
        // No room for the file
        ScratchFile f("P24", ply ? ".ply" : ".obj");
        if (symlink("/dev/full", f.path.c_str()) != 0) throw Discard();
        bool failed = false;
        try {
            m.save(f.path);
        } catch (const std::exception &) {
            failed = true;
        }
        c.require(failed, "saving to a full device was not reported as impossible");
        c.label("impossible");
        return;
    }
    if (c.g.chance(0.03)) {
        // Where nothing can be written, and formats nobody knows
        const bool place = c.g.chance(0.5);
        ScratchFile f("P24", place ? (ply ? "-dir/x.ply" : "-dir/x.obj") : (c.g.chance(0.5) ? ".stl" : ""));
        bool failed = false;
        try {
            m.save(f.path);
        } catch (const std::exception &) {
            failed = true;
        }
        c.require(failed, "saving to %s was not reported as impossible", place ? "a folder that does not exist" : "a file of unknown format");
        failed = false;
        try {
            tm::Mesh k;
            k.load(f.path);
        } catch (const std::exception &) {
            failed = true;
        }
        c.require(failed, "loading %s was not reported as impossible", place ? "a file that does not exist" : "a file of unknown format");
        c.label("impossible");
        return;
    }
    ScratchFile f("P24", ply ? ".ply" : ".obj");
    m.save(f.path);
    {
        const View v = viewOf(m);
        c.require(v.s.P == v0.s.P && v.s.F == v0.s.F && v.holes == v0.holes, "saving changed the mesh");
    }
    if (!ply) {
        const Surf text = readOBJ(c, f.read());
        same(c, rounded(text), s, "the file");
        c.require(text.P.size() == s.P.size(), "the file has %zu vertices instead of %zu", text.P.size(), s.P.size());
    }
    tm::Mesh k;
    if (c.g.chance(0.4)) {
        // The object held something else before
        c.label("object used before");
        if (c.g.chance(0.5)) {
            Options small;
            small.maxFaces = 30;
            small.transform = false;
            pbt::Case sub(c.g);
            k = toMesh(randomSurface(sub, small).s);
        } else {
            k.load(f.path);
            try {
                k.load(f.path + ".missing" + (ply ? ".ply" : ".obj"));
                c.fail("loading a file that does not exist was not reported");
            } catch (const pbt::Failure &) {
                throw;
            } catch (const std::exception &) {
            }
        }
    }
    k.load(f.path);
    requireValid(c, k, "after loading");
    same(c, rounded(surfOf(k)), s, "the mesh loaded");
    c.require(k.numVertices() == s.P.size(), "%zu vertices loaded instead of %zu", (size_t)k.numVertices(), s.P.size());
    // A second round trip changes nothing any more
    k.save(f.path);
    tm::Mesh again(f.path);
    same(c, surfOf(again), surfOf(k), "the second round trip");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P24";
    cfg.rule = "random manifolds, some after edits or far from the origin, saved and loaded as OBJ or PLY; non-trivial: vertices stay distinct in single precision";
    cfg.prop = prop;
    cfg.quickCases = 40000;
    cfg.thoroughCases = 400000;
    cfg.assumptions = { "vertices distinct in single precision; stand-ins for the two file libraries" };
    return pbt::run(cfg, argc, argv);
}
