// P02: any vertex/index input is either meshed validly or cleanly rejected.
#include "bridge.h"
using namespace ref;

struct Input {
    std::vector<V3> P;
    std::vector<uint32_t> I;
};

static Input arbitrary(Case &c) {
    Gen &g = c.g;
    Input in;
    const int kind = g.weighted({ 3, 5 });
    if (kind == 0) {
        // Arbitrary small lists over few positions
        const int nv = (int)g.integer(0, 8);
        for (int i = 0; i < nv; i++) in.P.push_back(V3((double)g.pick(3), (double)g.pick(3), (double)g.pick(2)));
        const int nt = (int)g.integer(0, 10);
        for (int i = 0; i < 3 * nt; i++) in.I.push_back(nv ? (uint32_t)g.pick(nv) : 0u);
        c.label("arbitrary list");
        c.describe("arbitrary list, %d vertices, %d triangles", nv, nt);
        if (nv == 0 && nt > 0) c.label("out of range");
    } else {
        Options o;
        o.maxFaces = 60;
        Made m = randomSurface(c, o);
        Surf s = m.s;
        const int damage = (int)g.integer(0, 4);
        for (int k = 0; k < damage; k++) {
            const int f = g.pick((int)s.F.size());
            switch (g.pick(8)) {
            case 0:  // repeat a triangle
                s.F.push_back(s.F[(size_t)f]);
                c.describe(", repeat triangle");
                break;
            case 1:  // turn one over
                std::swap(s.F[(size_t)f][0], s.F[(size_t)f][1]);
                c.describe(", reverse triangle");
                break;
            case 2: {  // degenerate triangle over existing vertices
                const int a = g.pick((int)s.P.size()), b = g.pick((int)s.P.size());
                const int at = g.pick((int)s.F.size() + 1);
                s.F.insert(s.F.begin() + at, Tri{ a, b, a });
                c.describe(", degenerate triangle");
                break;
            }
            case 3: {  // degenerate triangles at the very end
                const int n = (int)g.integer(1, 3);
                for (int q = 0; q < n; q++) {
                    const int a = g.pick((int)s.P.size()), b = g.pick((int)s.P.size());
                    s.F.push_back(Tri{ a, a, b });
                }
                c.describe(", %d degenerate triangles at the end", n);
                break;
            }
            case 4: {  // pinch two vertices
                const int a = g.pick((int)s.P.size()), b = g.pick((int)s.P.size());
                s.P[(size_t)a] = s.P[(size_t)b];
                c.describe(", vertices placed together");
                break;
            }
            case 5: {  // an extra triangle somewhere
                s.F.push_back(Tri{ g.pick((int)s.P.size()), g.pick((int)s.P.size()), g.pick((int)s.P.size()) });
                c.describe(", extra triangle");
                break;
            }
            case 6:  // drop one
                if (s.F.size() > 1) s.F.erase(s.F.begin() + f);
                c.describe(", dropped triangle");
                break;
            default: {  // move a corner
                s.F[(size_t)f][(size_t)g.pick(3)] = g.pick((int)s.P.size());
                c.describe(", corner moved");
                break;
            }
            }
        }
        in.P = s.P;
        for (const Tri &f : s.F) {
            for (int v : f) in.I.push_back((uint32_t)v);
        }
        c.label(damage ? "damaged surface" : "intact surface");
    }
    if (g.chance(0.08)) {
        if (!in.I.empty()) {
            static const uint32_t far[] = { 0, 1, 1000000, 0x7fffffff, 0x80000000u, 0xffffffffu };
            const int k = g.pick(6);
            in.I[(size_t)g.pick((int)in.I.size())] = k < 2 ? (uint32_t)in.P.size() + far[k] : far[k];
            c.describe(", index out of range");
        }
    }
    if (g.chance(0.04) && !in.I.empty()) {
        const uint32_t i = in.I[(size_t)g.pick((int)in.I.size())];
        static const double odd[] = { NAN, INFINITY, -INFINITY };
        if (i < in.P.size()) {
            V3 &p = in.P[i];
            (g.chance(0.5) ? p.x : p.z) = odd[g.pick(3)];
            c.describe(", position not finite");
        }
    }
    if (g.chance(0.08)) {
        const int drop = (int)g.integer(1, 2);
        for (int i = 0; i < drop && !in.I.empty(); i++) in.I.pop_back();
        c.describe(", incomplete triangle");
    }
    return in;
}

struct Outcome {
    bool error = false;
    std::string what;
    std::vector<V3> P;
    std::vector<uint32_t> I;
    bool operator==(const Outcome &o) const { return error == o.error && P == o.P && I == o.I; }
};

static Outcome build(Case &c, tm::Mesh &m, const Input &in) {
    Outcome r;
    std::vector<Vec3> v;
    for (const V3 &p : in.P) v.push_back(tv(p));
    try {
        m.construct(v, in.I);
    } catch (const std::runtime_error &e) {
        r.error = true;
        r.what = e.what();
        return r;
    }
    for (const auto &p : m.getVertices()) r.P.push_back(rv(p));
    r.I = m.getVertexIndices();
    requireValid(c, m, "after an accepted construction");
    return r;
}

static bool sharesEdge(const Tri3 &a, const Tri3 &b) {
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            if (a[(size_t)i] == b[(size_t)j] && a[(size_t)(i + 1) % 3] == b[(size_t)(j + 1) % 3]) return true;
        }
    }
    return false;
}

static void judge(Case &c, const Input &in, const Outcome &r) {
    bool inRange = in.I.size() % 3 == 0;
    for (uint32_t i : in.I) inRange = inRange && i < in.P.size();
    if (!inRange) {
        c.label("impossible indices");
        c.require(r.error, "an index list with an incomplete triangle or an index out of range was accepted");
        return;
    }
    for (uint32_t i : in.I) {
        if (finite(in.P[i])) continue;
        c.label("position not finite");
        c.require(r.error, "a position that is not finite was accepted");
        return;
    }
    std::vector<Tri3> all;
    std::set<V3> used, usedByDegenerate;
    for (size_t i = 0; i < in.I.size(); i += 3) {
        Tri3 t = { in.P[in.I[i]], in.P[in.I[i + 1]], in.P[in.I[i + 2]] };
        if (t[0] == t[1] || t[1] == t[2] || t[2] == t[0]) {
            for (const V3 &p : t) usedByDegenerate.insert(p);
            continue;
        }
        all.push_back(canon(t));
        for (const V3 &p : t) used.insert(p);
    }
    // Of triangles that use an edge in the same direction the first one counts; is what remains a manifold?
    Surf s;
    std::map<V3, int> id;
    std::set<Edge> taken;
    std::set<int> kept;
    std::vector<Tri3> expected;
    bool onlyRepeats = true;
    const std::set<Tri3> distinct(all.begin(), all.end());
    for (const Tri3 &t : all) {
        Tri f;
        for (int k = 0; k < 3; k++) {
            auto it = id.find(t[(size_t)k]);
            if (it == id.end()) {
                it = id.insert({ t[(size_t)k], (int)s.P.size() }).first;
                s.P.push_back(t[(size_t)k]);
            }
            f[(size_t)k] = it->second;
        }
        bool clash = false;
        for (int k = 0; k < 3; k++) clash = clash || taken.count(Edge(f[(size_t)k], f[(size_t)(k + 1) % 3]));
        if (clash) continue;
        for (int k = 0; k < 3; k++) taken.insert(Edge(f[(size_t)k], f[(size_t)(k + 1) % 3]));
        for (int v : f) kept.insert(v);
        s.F.push_back(f);
        expected.push_back(t);
    }
    onlyRepeats = expected.size() == distinct.size();
    const bool manifold = topology(s).ok && kept.size() == s.P.size();
    bool loose = false;
    for (const V3 &p : usedByDegenerate) loose = loose || !used.count(p);
    // Dropping degenerate triangles may change the order of the others
    const bool ordered = onlyRepeats || usedByDegenerate.empty();
    if (manifold && !loose && ordered) {
        c.label(onlyRepeats ? "manifold after dropping degenerate and repeated triangles" : "manifold after skipping later triangles at an edge");
        if (expected.size() < all.size()) c.label("triangles skipped");
        c.require(!r.error, "a manifold (apart from triangles to be skipped) was rejected: %s", r.what.c_str());
    }
    if (r.error) {
        c.label("rejected");
        return;
    }
    c.label("accepted");
    std::vector<Tri3> got;
    for (size_t i = 0; i + 2 < r.I.size(); i += 3) got.push_back(canon(Tri3{ r.P[r.I[i]], r.P[r.I[i + 1]], r.P[r.I[i + 2]] }));
    std::sort(got.begin(), got.end());
    std::sort(all.begin(), all.end());
    std::sort(expected.begin(), expected.end());
    if (ordered) c.require(got == expected, "%zu triangles were built where %zu are due, or others", got.size(), expected.size());
    c.require(std::includes(all.begin(), all.end(), got.begin(), got.end()), "the mesh has a triangle that was not given");
    for (const Tri3 &t : all) {
        if (std::binary_search(got.begin(), got.end(), t)) continue;
        bool blocked = false;
        for (const Tri3 &u : got) blocked = blocked || sharesEdge(t, u);
        c.require(blocked, "a non-degenerate triangle without conflict was lost");
    }
}

static void prop(Case &c) {
    tm::Mesh used;
    const int n = (int)c.g.integer(1, 3);
    for (int k = 0; k < n; k++) {
        if (k) c.describe("; then: ");
        Input in = arbitrary(c);
        tm::Mesh fresh;
        Outcome a = build(c, fresh, in);
        judge(c, in, a);
        Outcome b = build(c, used, in);
        c.require(a == b, "a reused mesh object gives another result (%s) than a fresh one (%s)", b.error ? b.what.c_str() : "accepted",
                  a.error ? a.what.c_str() : "accepted");
        c.nontrivial = c.nontrivial || in.I.size() >= 6;
    }
    if (n > 1) c.label("mesh object reused");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P02";
    cfg.rule = "one to three arbitrary or damaged index lists fed to one mesh object; non-trivial: at least two triangles";
    cfg.prop = prop;
    cfg.quickCases = 60000;
    cfg.thoroughCases = 900000;
    return pbt::run(cfg, argc, argv);
}
