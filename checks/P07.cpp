// P07: advancing-front hole filling closes the hole without touching existing surface.
#include "front.h"
#include "holes.h"
#include "restore/restore.h"
using namespace ref;

// In a flat hole the normals have nothing to smooth, so what is left of the final relaxation is a harmonic one: every
// new vertex is the mean of its neighbours weighted by the cotangents of the front. New vertices that the relaxation
// does not reach stay where the front has put them.
static void flatPatch(Case &c, const Front &front, const std::map<int, int> &to, const Surf &before, const Surf &after) {
    const int nv = (int)before.P.size();
    std::map<Edge, LD> w;
    for (size_t f = front.existing; f < front.F.size(); f++) {
        const Tri &t = front.F[f];
        const L3 n = cross(front.P[(size_t)t[1]] - front.P[(size_t)t[0]], front.P[(size_t)t[2]] - front.P[(size_t)t[0]]);
        for (int k = 0; k < 3; k++) {
            const int a = t[(size_t)k], b = t[(size_t)((k + 1) % 3)], o = t[(size_t)((k + 2) % 3)];
            const L3 x = front.P[(size_t)a] - front.P[(size_t)o], y = front.P[(size_t)b] - front.P[(size_t)o];
            // A front that has folded over itself turns normals around
            if (!(n.z > 1e-3L * norm(x) * norm(y))) return;
            const LD cot = dot(x, y) / norm(n) / 2;
            w[Edge(a, b)] += cot;
            w[Edge(b, a)] += cot;
        }
    }
    const LD size = (LD)before.diameter();
    std::map<int, std::vector<std::pair<int, LD>>> ring;
    for (const auto &e : w) ring[e.first.first].push_back({ e.first.second, e.second });
    auto where = [&](int v) { return L3(after.P[(size_t)to.at(v)]); };
    std::set<int> seen;
    for (const auto &r : ring) {
        if (r.first < nv || seen.count(r.first)) continue;
        // New vertices joined by edges are relaxed together
        std::vector<int> group = { r.first };
        seen.insert(r.first);
        for (size_t i = 0; i < group.size(); i++) {
            for (const auto &q : ring[group[i]]) {
                if (q.first >= nv && seen.insert(q.first).second) group.push_back(q.first);
            }
        }
        LD raw = 0, left = 0;
        for (int v : group) {
            raw = std::max(raw, norm(where(v) - front.P[(size_t)v]) / size);
            L3 sum;
            LD total = 0;
            for (const auto &q : ring[v]) {
                sum = sum + (where(v) - where(q.first)) * q.second;
                total += fabsl(q.second) * (size + norm(where(v)) + norm(where(q.first)));
            }
            left = std::max(left, norm(sum) / total);
        }
        // the relaxation sets out from the last triangle of the front
        const bool due = std::any_of(group.begin(), group.end(), [&](int v) { return std::count(front.loop.begin(), front.loop.end(), v) > 0; });
        c.require(left < 1e-8L || (!due && raw < 1e-8L), "%zu new vertices of a flat patch are not relaxed: imbalance %.3Lg, off the front by %.3Lg",
                  group.size(), left, raw);
        if (left < 1e-8L) c.label("flat patch relaxed");
        else c.label("flat patch left as the front put it");
    }
}

// The final relaxation of a curved patch. Normals of the new vertices are smoothed among each other, every triangle is
// turned with its normal onto the mean of theirs, and the cotangent Laplacian of a new vertex is the mean of half the opposite edges, turned
// outwards in the planes of the triangles. How far the smoothing gets depends on the order of the vertices, which is not
// laid down: the bound is widened by the differences between several orders.
static void curvedPatch(Case &c, const Front &front, const std::map<int, int> &to, const Surf &before, const Surf &after) {
    const int nv = (int)before.P.size();
    std::map<Edge, LD> w;
    std::map<int, std::vector<std::pair<int, int>>> corner;
    for (size_t f = front.existing; f < front.F.size(); f++) {
        const Tri &t = front.F[f];
        const L3 n = cross(front.P[(size_t)t[1]] - front.P[(size_t)t[0]], front.P[(size_t)t[2]] - front.P[(size_t)t[0]]);
        for (int k = 0; k < 3; k++) {
            const int a = t[(size_t)k], b = t[(size_t)((k + 1) % 3)], o = t[(size_t)((k + 2) % 3)];
            const L3 x = front.P[(size_t)a] - front.P[(size_t)o], y = front.P[(size_t)b] - front.P[(size_t)o];
            if (!(norm(n) > 1e-3L * norm(x) * norm(y))) return;
            const LD cot = dot(x, y) / norm(n) / 2;
            w[Edge(a, b)] += cot;
            w[Edge(b, a)] += cot;
            corner[a].push_back({ (int)f, k });
        }
    }
    std::map<int, std::vector<std::pair<int, LD>>> ring;
    for (const auto &e : w) ring[e.first.first].push_back({ e.first.second, e.second });
    std::vector<int> group;
    std::set<int> in;
    for (int v : front.loop) {
        if (v >= nv && in.insert(v).second) group.push_back(v);
    }
    for (size_t i = 0; i < group.size(); i++) {
        for (const auto &q : ring[group[i]]) {
            if (q.first >= nv && in.insert(q.first).second) group.push_back(q.first);
        }
    }
    if (group.empty()) return;
    const LD size = (LD)before.diameter();
    auto unit = [](const L3 &x) { return x * (1 / norm(x)); };
    std::map<int, L3> start;
    for (int v : group) {
        L3 n;
        for (const auto &fk : corner[v]) {
            const Tri &t = front.F[(size_t)fk.first];
            const L3 p = front.P[(size_t)v], x = front.P[(size_t)t[(size_t)((fk.second + 1) % 3)]] - p, y = front.P[(size_t)t[(size_t)((fk.second + 2) % 3)]] - p;
            n = n + cross(x, y) * (1 / (dot(x, x) * dot(y, y)));
        }
        start[v] = unit(n);
        LD sum = 0, all = 0;
        for (const auto &q : ring[v]) {
            sum += q.second;
            all += fabsl(q.second);
        }
        if (!(fabsl(sum) > 1e-3L * all)) return;
    }
    const LD scale = meanEdge(before);
    std::vector<std::vector<L3>> goal;
    std::vector<int> order = group;
    for (int way = 0; way < 4; way++) {
        if (way == 1) std::reverse(order.begin(), order.end());
        if (way == 2) std::sort(order.begin(), order.end());
        if (way == 3) std::reverse(order.begin(), order.end());
        if (way > 0 && group.size() < 2) break;
        std::map<int, L3> normal = start;
        for (int k = 0; k < 1000 && group.size() > 1; k++) {
            LD moved = 0;
            for (int v : order) {
                L3 n;
                LD sum = 0;
                for (const auto &q : ring[v]) {
                    if (in.count(q.first)) n = n + normal[q.first] * q.second;
                    sum += q.second;
                }
                const L3 next = unit(normal[v] * 0.5L + n * (0.5L / sum));
                moved = std::max(moved, norm(next - normal[v]));
                normal[v] = next;
            }
            if (moved < 1e-17L) break;
        }
        std::vector<L3> b;
        for (int v : group) {
            L3 sum;
            for (const auto &fk : corner[v]) {
                const Tri &t = front.F[(size_t)fk.first];
                const L3 p0 = front.P[(size_t)v], p1 = front.P[(size_t)t[(size_t)((fk.second + 1) % 3)]], p2 = front.P[(size_t)t[(size_t)((fk.second + 2) % 3)]];
                const L3 n0 = unit(cross(p1 - p0, p2 - p0));
                L3 n1;
                for (int u : t)
                    if (in.count(u)) n1 = n1 + normal[u];
                if (!(norm(n1) > 1e-3L)) return;
                n1 = unit(n1);
                const LD cs = dot(n0, n1);
                if (cs < -0.99L) return;
                // outwards in the plane of the triangle, then turned with its normal
                const L3 g = cross(p2 - p1, n0) * 0.5L, axis = cross(n0, n1);
                sum = sum + g * cs + cross(axis, g) + axis * (dot(axis, g) / (1 + cs));
            }
            b.push_back(sum * (1 / (LD)corner[v].size()));
        }
        goal.push_back(b);
    }
    LD spread = 0;
    for (const auto &x : goal)
        for (const auto &y : goal)
            for (size_t i = 0; i < group.size(); i++) spread = std::max(spread, norm(x[i] - y[i]));
    auto where = [&](int v) { return L3(after.P[(size_t)to.at(v)]); };
    for (size_t i = 0; i < group.size(); i++) {
        const int v = group[i];
        L3 sum;
        LD total = 0;
        for (const auto &q : ring[v]) {
            sum = sum + (where(v) - where(q.first)) * q.second;
            total += fabsl(q.second) * (size + norm(where(v)) + norm(where(q.first)));
        }
        const LD off = norm(sum - goal[0][i]);
        c.require(off <= 1e-8L * (total + scale) + 10 * spread, "new vertex %d of %zu of a curved patch is out of balance by %.3Lg (mean edge %.3Lg, order matters by %.3Lg)",
                  v, group.size(), off, scale, spread);
        if (getenv("DBG")) fprintf(stderr, "off %Lg goal %Lg spread %Lg size %zu\n", off / scale, norm(goal[0][i]) / scale, spread / scale, group.size());
    }
    c.label(group.size() == 1 ? "curved patch of one vertex" : spread < 0.01L * scale ? "curved patch of several vertices" : "curved patch, order of vertices matters");
}

static void prop(Case &c) {
    Surf input;
    std::vector<int> flatHole;
    const int kind = c.g.weighted({ 6, 3, 2 });
    const bool flat = kind == 1, round = kind == 2;
    if (round) {
        // A band with a round rim of many edges, flat or bent
        const int nu = (int)c.g.integer(5, 24), nv = (int)c.g.integer(1, 3);
        const double r0 = c.g.real(0.2, 1.0), r1 = r0 + 2 * M_PI * r0 / nu * nv, bend = c.g.real(0.05, 0.6);
        input = gridSurface(nu, nv, true, false, [&](double u, double v) {
            const double r = (r0 + (r1 - r0) * v) * bend;
            return V3(std::sin(r) * std::cos(2 * M_PI * u), std::sin(r) * std::sin(2 * M_PI * u), std::cos(r)) / bend;
        }, (unsigned)c.g.pick(3));
        c.describe("band of %d by %d", nu, nv);
        c.label("round rim");
        const double amp = c.g.real(0.005, 0.1) * meanEdge(input);
        Noise nz(c.g.seedChoice());
        for (V3 &p : input.P) p += V3(nz.sym(), nz.sym(), nz.sym()) * amp;
        permute(c.g, input);
    } else if (flat) {
        if (!flatSheetWithHole(c, input, flatHole)) throw Discard();
        c.label("flat sheet");
    } else {
        Options o;
        o.maxFaces = c.thorough ? 250 : 120;
        o.closedOnly = true;
        o.nice = true;
        o.minAngleDeg = 5;
        input = randomSurface(c, o).s;
        if (!cutHoles(c, input, 3, 20)) throw Discard();
        // Exact symmetries make new vertices coincide with old ones, which is reported as an error
        const double amp = c.g.real(0.01, 0.05) * meanEdge(input);
        Noise nz(c.g.seedChoice());
        for (V3 &p : input.P) p += V3(nz.sym(), nz.sym(), nz.sym()) * amp;
    }
    tm::Mesh m = toMesh(input);
    const View before = viewOf(m);
    const auto em = edgeMap(before.s);
    std::vector<int> fillable;
    for (size_t h = 0; h < before.holes.size(); h++) {
        if (before.holes[h].size() > 30) continue;
        if (!hasChord(before.holes[h], em)) fillable.push_back((int)h);
    }
    if (flat) {
        std::vector<int> only;
        const std::set<int> want(flatHole.begin(), flatHole.end());
        for (int h : fillable) {
            if (std::set<int>(before.holes[(size_t)h].begin(), before.holes[(size_t)h].end()) == want) only.push_back(h);
        }
        if (only.empty() || before.s.P != input.P) throw Discard();
        fillable = only;
    }
    if (fillable.empty()) throw Discard();
    const int h = fillable[(size_t)c.g.pick((int)fillable.size())];
    const std::vector<int> loop = before.holes[(size_t)h];
    const int n = (int)loop.size();
    c.label(n == 3 ? "hole of 3" : n == 4 ? "hole of 4" : n < 8 ? "hole of 5-7" : "hole of 8 and more");
    c.describe("; filling a hole of %d edges", n);
    c.nontrivial = n > 3;
    tm::holeFillAdvancingFront(m, m.face(before.holeFace[(size_t)h]));

    requireValid(c, m, "after filling");
    const View after = viewOf(m);
    const int nv = (int)before.s.P.size();
    c.require((int)after.s.P.size() >= nv, "vertices were lost");
    for (int i = 0; i < nv; i++) c.require(after.s.P[(size_t)i] == before.s.P[(size_t)i], "existing vertex %d moved", i);
    for (int i = nv; i < (int)after.s.P.size(); i++) c.require(finite(after.s.P[(size_t)i]), "new vertex has no finite position");
    const auto ib = indexSet(before.s), ia = indexSet(after.s);
    std::vector<Tri> lost;
    std::set_difference(ib.begin(), ib.end(), ia.begin(), ia.end(), std::back_inserter(lost));
    c.require(lost.empty(), "%zu existing triangles were lost", lost.size());
    std::multiset<std::vector<int>> wantHoles, gotHoles;
    for (size_t k = 0; k < before.holes.size(); k++) {
        if ((int)k != h) wantHoles.insert(canonLoop(before.holes[k]));
    }
    for (auto &k : after.holes) gotHoles.insert(canonLoop(k));
    c.require(wantHoles == gotHoles, "%zu holes remain instead of %zu, or they have changed", gotHoles.size(), wantHoles.size());
    const Topo t0 = topology(before.s), t1 = topology(after.s);
    c.require(t1.ok && t1.euler() == t0.euler() + 1 && t1.components == t0.components, "the patch is not a disc");
    for (int v : loop) c.require(!m.vertex(v)->isBoundary(), "vertex %d of the filled hole is still boundary", v);
    if ((int)after.s.P.size() > nv) c.label("new vertices");
    // Which triangles the front leaves behind
    {
        std::map<Edge, int> all;
        LD sum = 0;
        for (const Tri &t : before.s.F) {
            for (int k = 0; k < 3; k++) {
                const int x = t[(size_t)k], y = t[(size_t)((k + 1) % 3)];
                if (all.insert({ Edge(std::min(x, y), std::max(x, y)), 0 }).second) sum += norm(L3(before.s.P[(size_t)x]) - L3(before.s.P[(size_t)y]));
            }
        }
        const Front front(before.s, loop, sum / (LD)all.size());
        if (front.clear) {
            std::vector<Tri> patch;
            std::multiset<Tri> old;
            for (const Tri &t : before.s.F) old.insert(canonIdx(t));
            for (const Tri &t : after.s.F) {
                auto it = old.find(canonIdx(t));
                if (it == old.end()) patch.push_back(t);
                else old.erase(it);
            }
            const size_t want = front.F.size() - front.existing;
            c.require(patch.size() == want, "the hole was filled by %zu triangles instead of %zu", patch.size(), want);
            std::map<int, int> to;
            c.require(front.same(patch, loop, to), "the hole was filled by other triangles than the angles of its front ask for");
            c.label("front followed");
            if (front.merges) c.label("front merged vertices");
            if (front.medium) c.label("corner of two triangles");
            if (front.flat) c.label("corner of three triangles");
            if (front.sharp) c.label("corner of one triangle");
            if (flat) flatPatch(c, front, to, before.s, after.s);
            else curvedPatch(c, front, to, before.s, after.s);
        } else {
            c.label("front not followed");
        }
    }
    // A moved and scaled copy is filled by the moved and scaled patch
    if (c.g.chance(0.4)) {
        const double size = before.s.diameter();
        const Similarity sim = randomSimilarity(c.g, size, true);
        tm::Mesh w = toMesh(sim(input));
        int other = -1;
        for (int f = 0; f < (int)w.numFaces(); f++) {
            if (!w.face(f)->isHole()) continue;
            std::vector<int> l;
            for (auto it = w.face(f)->v_begin(); it != w.face(f)->v_end(); ++it) l.push_back(it->index());
            if (canonLoop(l) == canonLoop(loop)) other = f;
        }
        c.require(other >= 0, "moved copy has no such hole");
        tm::holeFillAdvancingFront(w, w.face(other));
        // Several new vertices are relaxed in an order that depends on their addresses, and a front that folds
        // leaves exact ties; with at most one new vertex neither occurs.
        const View moved = viewOf(w);
        if ((int)after.s.P.size() <= nv + 1) {
            c.require(indexSet(moved.s) == ia, "a moved copy is filled by other triangles");
            double worst = 0;
            for (size_t i = 0; i < after.s.P.size(); i++) worst = std::max(worst, norm(sim(after.s.P[i]) - moved.s.P[i]));
            c.require(worst <= 1e-6 * size * sim.k, "patch of a moved copy differs by %.3g of its size", worst / (size * sim.k));
            c.label("moved copy compared");
        }
        requireValid(c, w, "after filling a moved copy");
        c.label("moved copy");
    }
    if (flat) {
        for (int i = nv; i < (int)after.s.P.size(); i++) c.require(std::fabs(after.s.P[(size_t)i].z) < 1e-6, "flat hole filled out of its plane");
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P07";
    cfg.rule = "random open manifolds and flat sheets; one hole without chords is filled; non-trivial if it has more than 3 edges";
    cfg.prop = prop;
    cfg.quickCases = 7000;
    cfg.thoroughCases = 60000;
    cfg.isolate = true;
    return pbt::run(cfg, argc, argv);
}
