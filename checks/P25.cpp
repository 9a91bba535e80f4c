// P25: every mesh file is either loaded as written or rejected with an error.
#include "discrete.h"
#include "edits.h"
#include "files.h"
using namespace ref;

// ---- PLY files ----

struct Number {
    const char *name, *alias;
    int size;
    bool integer, isSigned;
    double lo, hi;
};
static const Number NUMBERS[] = {
    { "float", "float32", 4, false, true, -1e30, 1e30 }, { "double", "float64", 8, false, true, -1e300, 1e300 }, { "int", "int32", 4, true, true, -2147483648.0, 2147483647.0 },
    { "uint", "uint32", 4, true, false, 0, 4294967295.0 }, { "short", "int16", 2, true, true, -32768, 32767 },    { "ushort", "uint16", 2, true, false, 0, 65535 },
    { "char", "int8", 1, true, true, -128, 127 },          { "uchar", "uint8", 1, true, false, 0, 255 },
};
enum { F32, F64, I32, U32, I16, U16, I8, U8 };

struct Writer {
    int encoding;  // ascii, little endian, big endian
    std::string out;
    void put(int type, double x) {
        const Number &t = NUMBERS[type];
        if (encoding == 0) {
            if (t.integer) out += pbt::fmt("%lld ", (long long)x);
            else if (type == F32) out += pbt::fmt("%.9g ", (double)(float)x);
            else out += pbt::fmt("%.17g ", x);
            return;
        }
        unsigned char b[8];
        if (type == F32) {
            const float f = (float)x;
            memcpy(b, &f, 4);
        } else if (type == F64) {
            memcpy(b, &x, 8);
        } else {
            const int64_t v = (int64_t)x;
            memcpy(b, &v, 8);
        }
        if (encoding == 2) std::reverse(b, b + t.size);
        out.append((const char *)b, (size_t)t.size);
    }
    void endLine() {
        if (encoding == 0) out += "\n";
    }
};

struct Outcome {
    bool failed = false;
    std::string why;
};
static Outcome load(tm::Mesh &m, const std::string &path) {
    Outcome o;
    try {
        m.load(path);
    } catch (const std::exception &e) {
        o.failed = true;
        o.why = e.what();
    }
    return o;
}

static void same(Case &c, const Surf &got, const Surf &want) {
    Surf a = got, b = want;
    for (Surf *s : { &a, &b })
        for (V3 &p : s->P) p = V3((double)(float)p.x, (double)(float)p.y, (double)(float)p.z);
    const std::string d = diffTriangles(triangleSet(a), triangleSet(b), "read", "written");
    c.require(d.empty(), "%s", d.c_str());
}

static bool floatDistinct(const Surf &s) {
    Surf r = s;
    for (V3 &p : r.P) p = V3((double)(float)p.x, (double)(float)p.y, (double)(float)p.z);
    return distinctPositions(r);
}

static void plyFile(Case &c, Surf s) {
    Gen &g = c.g;
    int coord = g.weighted({ 6, 3, 1, 0, 1, 1, 1, 1 });
    if (NUMBERS[coord].integer) {
        // Move to integers that the type can hold
        V3 lo = s.P[0], hi = s.P[0];
        for (const V3 &p : s.P) {
            lo = V3(std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z));
            hi = V3(std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z));
        }
        const double L = std::max(hi.x - lo.x, std::max(hi.y - lo.y, hi.z - lo.z)), top = std::min(NUMBERS[coord].hi, 30000.0), bottom = NUMBERS[coord].isSigned ? -top : 0;
        for (V3 &p : s.P) {
            p = (p - lo) * ((top - bottom) / (L > 0 ? L : 1)) + V3(bottom, bottom, bottom);
            p = V3(std::floor(p.x), std::floor(p.y), std::floor(p.z));
        }
    } else if (coord == F32) {
        for (V3 &p : s.P) p = V3((double)(float)p.x, (double)(float)p.y, (double)(float)p.z);
    }
    if (!floatDistinct(s)) throw Discard();
    std::vector<int> can;
    for (int t : { I32, U32, I16, U16, I8, U8 })
        if ((double)s.P.size() <= NUMBERS[t].hi) can.push_back(t);
    int index = can[(size_t)g.pick((int)can.size())];
    if (g.chance(0.3)) index = g.chance(0.5) ? I32 : U32;
    const int lengths[] = { U8, I8, I32, U32, U16, I16 };
    const int length = g.chance(0.5) ? U8 : lengths[g.pick(6)];
    const int encoding = g.pick(3);
    static const char *formats[] = { "ascii", "binary_little_endian", "binary_big_endian" };
    c.label(formats[encoding]);
    c.describe(", PLY %s, %s coordinates, %s indices counted by %s", formats[encoding], NUMBERS[coord].name, NUMBERS[index].name, NUMBERS[length].name);
    if (coord != F32) c.label("coordinates not float");
    if (index != I32 && index != U32) c.label("indices not 32 bit");

    // What else the file contains, and what is wrong with it
    const bool normals = g.chance(0.2), texture = g.chance(0.1), colours = g.chance(0.2), before = g.chance(0.1), faceExtra = g.chance(0.15), edges = g.chance(0.15), facesFirst = g.chance(0.1), alias = g.chance(0.3);
    const int damage = g.chance(0.35) ? 1 + g.pick(11) : 0;
    static const char *damages[] = { "", "no vertices element", "no faces element", "coordinate missing", "index list missing", "index too large", "negative index", "cut short", "coordinate not finite", "longer list", "not a PLY file", "coordinates of mixed type" };
    if (damage) {
        c.label(damages[damage]);
        c.describe(", %s", damages[damage]);
    } else if (normals || texture || colours || before || faceExtra || edges || facesFirst) {
        c.label("other contents");
    }
    auto name = [&](int t) { return alias ? NUMBERS[t].alias : NUMBERS[t].name; };
    std::string head = damage == 10 ? "plx\n" : "ply\n";
    head += pbt::fmt("format %s 1.0\n", formats[encoding]);
    if (g.chance(0.3)) head += "comment made up\n";
    if (g.chance(0.1)) head += "obj_info none\n";
    std::vector<Tri> F = s.F;
    std::vector<V3> P = s.P;
    bool mustFail = damage != 0;
    if (damage == 5) F[(size_t)g.pick((int)F.size())][(size_t)g.pick(3)] = (int)s.P.size() + (g.chance(0.5) ? 0 : g.pick(100));
    if (damage == 6) {
        if (!NUMBERS[index].isSigned) index = I32;
        F[(size_t)g.pick((int)F.size())][(size_t)g.pick(3)] = -1 - g.pick(3);
    }
    if (damage == 5) {
        for (const Tri &t : F)
            for (int k = 0; k < 3; k++)
                if (t[(size_t)k] > NUMBERS[index].hi) index = I32;
    }
    if (damage == 8) {
        if (NUMBERS[coord].integer) throw Discard();
        const double bad[] = { NAN, INFINITY, -INFINITY };
        V3 &p = P[(size_t)g.pick((int)P.size())];
        (g.pick(2) ? p.x : p.z) = bad[g.pick(3)];
    }
    auto vertexHead = [&] {
        if (damage == 1) return;
        head += pbt::fmt("element vertex %zu\n", P.size());
        if (before) head += "property uchar quality\n";
        head += pbt::fmt("property %s x\n", name(coord));
        if (damage != 3) head += pbt::fmt("property %s y\n", damage == 11 ? (coord == F64 ? "float" : "double") : name(coord));
        head += pbt::fmt("property %s z\n", name(coord));
        if (normals) head += "property float nx\nproperty float ny\nproperty float nz\n";
        if (texture) head += "property float u\nproperty float v\n";
        if (colours) head += "property uchar red\nproperty uchar green\nproperty uchar blue\n";
    };
    Writer w{ encoding, "" };
    auto vertexBody = [&] {
        if (damage == 1) return;
        for (const V3 &p : P) {
            if (before) w.put(U8, 7);
            w.put(coord, p.x);
            if (damage != 3) w.put(damage == 11 ? (coord == F64 ? F32 : F64) : coord, p.y);
            w.put(coord, p.z);
            for (int k = 0; k < 3 && normals; k++) w.put(F32, 0.5);
            for (int k = 0; k < 2 && texture; k++) w.put(F32, 0.25);
            for (int k = 0; k < 3 && colours; k++) w.put(U8, 100 + k);
            w.endLine();
        }
    };
    const int longer = damage == 9 ? g.pick((int)F.size()) : -1;
    auto faceHead = [&] {
        if (damage == 2) return;
        head += pbt::fmt("element face %zu\n", F.size());
        if (faceExtra) head += "property uchar flags\n";
        head += pbt::fmt("property list %s %s %s\n", name(length), name(index), damage == 4 ? "corners" : "vertex_indices");
        if (faceExtra) head += "property float weight\n";
    };
    auto faceBody = [&] {
        if (damage == 2) return;
        for (size_t f = 0; f < F.size(); f++) {
            if (faceExtra) w.put(U8, 1);
            w.put(length, (int)f == longer ? 4 : 3);
            for (int k = 0; k < 3; k++) w.put(index, F[f][(size_t)k]);
            if ((int)f == longer) w.put(index, F[f][0]);
            if (faceExtra) w.put(F32, 2.5);
            w.endLine();
        }
    };
    if (facesFirst) {
        faceHead(), faceBody();
    }
    vertexHead(), vertexBody();
    if (edges) {
        head += "element edge 2\nproperty int vertex1\nproperty int vertex2\nproperty list uchar short tags\n";
        for (int k = 0; k < 2; k++) {
            w.put(I32, 0);
            w.put(I32, 1);
            w.put(U8, 2);
            w.put(I16, -5);
            w.put(I16, 5);
            w.endLine();
        }
    }
    if (!facesFirst) {
        faceHead(), faceBody();
    }
    std::string file = head + "end_header\n" + w.out;
    if (damage == 7) {
        const size_t full = file.size();
        file.resize((size_t)g.integer(0, (int64_t)full - 1));
        // An ASCII file may still be complete, or say something else
        if (encoding == 0 || file.size() == full) mustFail = false;
    }
    ScratchFile f("P25", ".ply");
    f.write(file);
    tm::Mesh m;
    if (g.chance(0.2)) m = toMesh(tetrahedron());
    const Outcome o = load(m, f.path);
    c.nontrivial = true;
    if (damage == 7 && !mustFail) {
        if (!o.failed) requireValid(c, m, "after loading");
        return;
    }
    if (damage == 11) {
        // Not supported by every reader
        if (!o.failed) same(c, surfOf(m), s);
        return;
    }
    if (mustFail) {
        c.require(o.failed, "the file was loaded as a mesh of %zu triangles", surfOf(m).F.size());
        return;
    }
    c.require(!o.failed, "the file was rejected: %s", o.why.c_str());
    requireValid(c, m, "after loading");
    same(c, surfOf(m), s);
}

// ---- OBJ files ----

static void objFile(Case &c, Surf s) {
    Gen &g = c.g;
    for (V3 &p : s.P) p = V3((double)(float)p.x, (double)(float)p.y, (double)(float)p.z);
    if (!distinctPositions(s)) throw Discard();
    const int damage = g.chance(0.25) ? 1 + g.pick(5) : 0;
    static const char *damages[] = { "", "index too large", "index zero", "negative index too large", "coordinate not finite", "face without numbers" };
    c.describe(", OBJ%s%s", damage ? ", " : "", damages[damage]);
    c.label("OBJ");
    if (damage) c.label(std::string("OBJ ") + damages[damage]);
    const bool normals = g.chance(0.2), texture = g.chance(0.2), groups = g.chance(0.3), relative = g.chance(0.2), interleaved = g.chance(0.2), reused = g.chance(0.15);
    const int style = normals && texture ? 3 : normals ? 2 : texture ? 1 : 0;
    std::string out = g.chance(0.5) ? "# a comment\nmtllib none.mtl\n" : "";
    const int bad = damage ? g.pick((int)s.F.size()) : -1, badV = damage == 4 ? g.pick((int)s.P.size()) : -1;
    std::vector<int> number(s.P.size(), 0);
    int used = 0;
    auto vertex = [&](int i) {
        const V3 &p = s.P[(size_t)i];
        if (i == badV) out += g.chance(0.5) ? "v nan 0 0\n" : "v 0 inf 0\n";
        else out += pbt::fmt("v %.9g %.9g %.9g\n", p.x, p.y, p.z);
        number[(size_t)i] = ++used;
    };
    if (texture) out += "vt 0.5 0.5\n";
    if (normals) out += "vn 0 0 1\n";
    if (!interleaved)
        for (int i = 0; i < (int)s.P.size(); i++) vertex(i);
    for (size_t f = 0; f < s.F.size(); f++) {
        if (groups && g.chance(0.1)) out += pbt::fmt("%s part%zu\n", g.chance(0.5) ? "g" : "o", f);
        if (interleaved)
            for (int k = 0; k < 3; k++)
                if (!number[(size_t)s.F[f][(size_t)k]] || (reused && g.chance(0.2))) vertex(s.F[f][(size_t)k]);
        out += "f";
        for (int k = 0; k < 3; k++) {
            int i = number[(size_t)s.F[f][(size_t)k]];
            if (relative) i = i - used - 1;
            if ((int)f == bad && k == 1) {
                if (damage == 1) i = (int)s.P.size() * 3 + 1 + g.pick(50);
                if (damage == 2) i = 0;
                if (damage == 3) i = -used - 1 - g.pick(3);
            }
            if ((int)f == bad && damage == 5 && k == 1) out += " x";
            else out += pbt::fmt(style == 0 ? " %d" : style == 1 ? " %d/1" : style == 2 ? " %d//1" : " %d/1/1", i);
        }
        out += g.chance(0.05) ? "  \n" : "\n";
    }
    ScratchFile f("P25", ".obj");
    f.write(out);
    tm::Mesh m;
    if (g.chance(0.2)) m = toMesh(tetrahedron());
    const Outcome o = load(m, f.path);
    c.nontrivial = true;
    if (damage) {
        c.require(o.failed, "the file was loaded as a mesh of %zu triangles", surfOf(m).F.size());
        return;
    }
    c.require(!o.failed, "the file was rejected: %s", o.why.c_str());
    requireValid(c, m, "after loading");
    same(c, surfOf(m), s);
}

static void prop(Case &c) {
    Options o;
    o.maxFaces = c.thorough ? 160 : 60;
    Made made = randomSurface(c, o);
    if (c.g.chance(0.3)) objFile(c, made.s);
    else plyFile(c, made.s);
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P25";
    cfg.rule = "PLY files of all encodings, scalar types and extra contents, and OBJ files of all index styles, a third of them damaged; non-trivial: the file reached the loader";
    cfg.prop = prop;
    cfg.quickCases = 120000;
    cfg.thoroughCases = 1200000;
    cfg.assumptions = { "files name the index list vertex_indices; stand-ins for the two file libraries" };
    return pbt::run(cfg, argc, argv);
}
