// P08: context-coherent completion returns a valid closed mesh and keeps the existing surface.
#include <Eigen/Dense>

#include "ops/ops.h"
#include "discrete.h"
#include "holes.h"
#include "restore/restore.h"
using namespace ref;

// A closed surface with a few hundred vertices: the method asks for 300 eigenvalues.
static Surf baseSurface(Case &c, bool small) {
    Gen &g = c.g;
    Surf s;
    switch (g.weighted({ 3, 2, small ? 0 : 1 })) {
    case 0: {
        const int nu = (int)g.integer(small ? 8 : 16, small ? 14 : 26), least = (small ? 110 : 320) / nu + 1, nv = (int)g.integer(least, least + 5);
        const double r = g.real(0.25, 0.6), a = g.real(0.0, 0.15);
        const int k = (int)g.integer(1, 5);
        s = gridSurface(nu, nv, true, true, [&](double u, double v) {
            const double rr = r * (1 + a * std::sin(2 * M_PI * k * u) * std::cos(2 * M_PI * v));
            const double R = 1 + rr * std::cos(2 * M_PI * v);
            return V3(R * std::cos(2 * M_PI * u), R * std::sin(2 * M_PI * u), rr * std::sin(2 * M_PI * v));
        }, (unsigned)g.pick(3));
        c.describe("torus %dx%d, tube %.3f, %d waves of %.3f", nu, nv, r, k, a);
        c.label("torus");
        break;
    }
    case 1: {
        const int n = (int)g.integer(small ? 4 : 8, small ? 6 : 9);
        s = cube(n);
        const double blend = g.real(0.0, 1.0);
        const V3 ax(1, g.real(0.6, 1.4), g.real(0.6, 1.4));
        for (V3 &p : s.P) {
            const V3 r = p * (1 - blend) + unit(p) * blend;
            p = V3(r.x * ax.x, r.y * ax.y, r.z * ax.z);
        }
        c.describe("box %d, rounded by %.2f", n, blend);
        c.label("box");
        break;
    }
    default:
        s = subdivide(subdivide(subdivide(icosahedron(), true), true), true);
        c.describe("sphere");
        c.label("sphere");
    }
    const double amp = g.real(0.005, 0.08) * meanEdge(s);
    Noise nz(g.seedChoice());
    for (V3 &p : s.P) p += V3(nz.sym(), nz.sym(), nz.sym()) * amp;
    return s;
}

// Removes the triangles near a vertex, and those that would be left with a single neighbour.
static bool cutRound(Case &c, Surf &s) {
    const V3 at = s.P[(size_t)c.g.pick((int)s.P.size())];
    const double r = c.g.real(0.3, 3.2) * meanEdge(s);
    std::set<int> dead;
    for (size_t f = 0; f < s.F.size(); f++) {
        if (norm((s.P[(size_t)s.F[f][0]] + s.P[(size_t)s.F[f][1]] + s.P[(size_t)s.F[f][2]]) / 3 - at) < r) dead.insert((int)f);
    }
    if (dead.empty()) dead.insert(c.g.pick((int)s.F.size()));
    const Topo ts = topology(s);
    for (bool more = true; more;) {
        more = false;
        for (size_t f = 0; f < s.F.size(); f++) {
            if (dead.count((int)f)) continue;
            int gone = 0;
            for (int k = 0; k < 3; k++) {
                auto it = ts.face.find(Edge(s.F[f][(size_t)((k + 1) % 3)], s.F[f][(size_t)k]));
                gone += it == ts.face.end() || dead.count(it->second);
            }
            if (gone >= 2) dead.insert((int)f), more = true;
        }
    }
    Surf t = s;
    if (!removeFaces(t, dead)) return false;
    s = t;
    c.describe(", %zu triangles cut out", dead.size());
    return true;
}

static void prop(Case &c) {
    const bool small = c.g.chance(0.06);
    Surf s = baseSurface(c, small);
    const int holes = c.g.chance(0.04) ? 0 : (int)c.g.integer(1, 3);
    for (int h = 0; h < holes; h++) cutRound(c, s);
    if (!small && s.P.size() <= 301) throw Discard();
    if (c.g.chance(0.3)) {
        const double k = c.g.logReal(0.01, 100);
        c.describe(", scaled by %g", k);
        c.label("other size");
        for (V3 &p : s.P) p = p * k;
    }
    permute(c.g, s);
    tm::Mesh m = toMesh(s);
    const View before = viewOf(m);
    const auto em = edgeMap(before.s);
    for (const auto &h : before.holes) {
        if (h.size() > 40 || hasChord(h, em)) throw Discard();
    }
    const Topo t0 = topology(before.s);
    const int iters = c.g.chance(0.12) ? 0 : (int)c.g.integer(1, c.thorough ? 16 : 5);
    c.describe("; %d iterations", iters);
    c.label(before.holes.empty() ? "no hole" : before.holes.size() == 1 ? "one hole" : "several holes");
    if (small) {
        // Too few vertices for the signature: an error, or a valid result
        c.label("few vertices");
        try {
            tm::holeFillContextCoherent(m, iters);
        } catch (std::exception &) {
            return;
        }
    } else {
        tm::holeFillContextCoherent(m, iters);
    }
    requireValid(c, m, "after completion");
    const View after = viewOf(m);
    c.require(after.holes.empty(), "%zu holes are left", after.holes.size());
    const Topo t1 = topology(after.s);
    c.require(t1.ok && t1.components == t0.components && t1.euler() == t0.euler() + (int)t0.loops.size(),
              "the surface has %d components and Euler characteristic %d after %d and %d with %zu holes", t1.components, t1.euler(), t0.components, t0.euler(), t0.loops.size());
    // The existing surface is all there, the new part stays with it
    const auto tb = triangleSet(before.s), ta = triangleSet(after.s);
    std::vector<Tri3> lost;
    std::set_difference(tb.begin(), tb.end(), ta.begin(), ta.end(), std::back_inserter(lost));
    c.require(lost.empty(), "%zu of %zu existing triangles were changed", lost.size(), tb.size());
    V3 lo = before.s.P[0], hi = lo;
    for (const V3 &p : before.s.P) {
        lo = V3(std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z));
        hi = V3(std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z));
    }
    const double far = norm(hi - lo);
    for (const V3 &p : after.s.P) {
        c.require(finite(p), "a vertex has no finite position");
        const V3 d = p - (lo + hi) / 2;
        c.require(norm(d) <= 1.5 * far, "a new vertex lies at %.3g times the size of the surface from its centre", norm(d) / far);
    }
    const size_t added = after.s.F.size() - before.s.F.size();
    c.label(added == 0 ? "no triangle added" : added < 20 ? "less than 20 triangles added" : "20 triangles and more added");
    c.nontrivial = iters > 0 && after.s.P.size() > before.s.P.size();
    if (before.holes.empty()) c.require(added == 0 && after.s.P.size() == before.s.P.size(), "a closed surface was changed");
    if (iters == 0 && before.holes.size() == 1) {
        c.label("initial filling only");
        tm::Mesh w = toMesh(s);
        const View v = viewOf(w);
        tm::holeFillAdvancingFront(w, w.face(v.holeFace[0]));
        c.require(triangleSet(viewOf(w).s) == ta, "without iterations the result is not the advancing-front filling");
    }
}

// ---- One iteration, followed in the model ----
struct NotClear {};  // a choice depends on rounding

static V3 closestOn(const V3 &q, const V3 &a, const V3 &b, const V3 &c) {
    const V3 n = cross(b - a, c - a);
    const double nn = dot(n, n);
    if (nn > 0) {
        const V3 p = q - n * (dot(q - a, n) / nn);
        const double u = dot(cross(c - b, p - b), n), v = dot(cross(a - c, p - c), n), w = dot(cross(b - a, p - a), n);
        if (u >= 0 && v >= 0 && w >= 0) return p;
    }
    V3 best = a;
    double least = 1e300;
    const V3 x[3] = { a, b, c };
    for (int k = 0; k < 3; k++) {
        const V3 s = x[k], e = x[(k + 1) % 3] - s;
        const double t = std::min(1.0, std::max(0.0, dot(q - s, e) / dot(e, e)));
        const V3 p = s + e * t;
        if (norm(q - p) < least) least = norm(q - p), best = p;
    }
    return best;
}

struct Followed {
    std::vector<V3> P;      // where the vertices go
    bool calm, split, unsplit, open;  // surely no repair; surely a split; surely none; no angle so narrow that vertices are merged
    int radius, targets;
};

// The triangles are those of the filled surface; fresh[i] tells whether vertex i is new.
static Followed follow(const Surf &s, const std::vector<char> &fresh) {
    const tm::Mesh w = toMesh(s);
    const View vw = viewOf(w);
    std::map<V3, int> at;
    for (size_t i = 0; i < s.P.size(); i++) at[s.P[i]] = (int)i;
    const int n = (int)s.P.size();
    if ((int)at.size() != n || (int)vw.s.P.size() != n) throw NotClear();
    std::vector<int> of((size_t)n), row((size_t)n);  // vertices of w as vertices of s, and the other way round
    for (int i = 0; i < n; i++) {
        of[(size_t)i] = at.at(vw.s.P[(size_t)i]);
        row[(size_t)of[(size_t)i]] = i;
    }
    const Adjacency ad(s);
    const double len = meanEdge(s);

    // Patch radius from the middle one of three classes of curvature
    const auto curv = tm::getPrincipalCurvatures(w);
    std::vector<double> k((size_t)n);
    double top = 0;
    for (int i = 0; i < n; i++) {
        k[(size_t)i] = std::max(std::fabs(std::get<0>(curv)(row[(size_t)i])), std::fabs(std::get<1>(curv)(row[(size_t)i])));
        top = std::max(top, k[(size_t)i]);
    }
    double share[3] = { 1 / 3.0, 1 / 3.0, 1 / 3.0 }, mean[3] = { 0, top / 2, top }, var[3] = { 1, 1, 1 };
    for (int it = 0; it < 20; it++) {
        std::vector<std::array<double, 3>> g((size_t)n);
        double mass[3] = {};
        for (int i = 0; i < n; i++) {
            double sum = 0;
            for (int j = 0; j < 3; j++) {
                const double d = mean[j] - k[(size_t)i];
                sum += g[(size_t)i][(size_t)j] = share[j] * std::exp(-d * d / (2 * var[j])) / std::sqrt(2 * M_PI * var[j]);
            }
            for (int j = 0; j < 3; j++) mass[j] += g[(size_t)i][(size_t)j] /= sum;
        }
        for (int j = 0; j < 3; j++) {
            share[j] = mass[j] / n;
            mean[j] = var[j] = 0;
            for (int i = 0; i < n; i++) mean[j] += g[(size_t)i][(size_t)j] * k[(size_t)i] / mass[j];
            for (int i = 0; i < n; i++) var[j] += g[(size_t)i][(size_t)j] * (k[(size_t)i] - mean[j]) * (k[(size_t)i] - mean[j]) / mass[j];
        }
    }
    const double wide = 1 / (len * mean[1]) + 1;
    if (!(wide < 30) || std::fabs(wide - std::round(wide)) < 1e-3) throw NotClear();
    Followed r;
    r.radius = (int)std::ceil(wide);

    const EigenMatrix hks = tm::getHeatKernelSignatures(tm::getMeshLaplacian(w, tm::MeshLaplace::Cotangent), 300, 100);
    const auto lines = tm::getFeatureLineFieldWithFlags(w, true);
    auto sig = [&](int v) { return EigenVector(hks.row(row[(size_t)v])); };
    std::vector<EigenVector> sigs;
    for (int i = 0; i < n; i++) sigs.push_back(sig(i));

    // Patches: rings of triangles joined by edges
    std::vector<std::set<int>> faces((size_t)n), verts((size_t)n);
    for (int i = 0; i < n; i++) {
        std::set<int> front;
        for (auto &f : ad.tri[(size_t)i]) front.insert(f.first);
        faces[(size_t)i] = front;
        for (int d = 2; d <= r.radius; d++) {
            std::set<int> more;
            for (int f : front)
                for (int e = 0; e < 3; e++) {
                    const int o = ad.face.at(Edge(s.F[(size_t)f][(size_t)((e + 1) % 3)], s.F[(size_t)f][(size_t)e]));
                    if (faces[(size_t)i].insert(o).second) more.insert(o);
                }
            front = more;
        }
        for (int f : faces[(size_t)i]) verts[(size_t)i].insert(s.F[(size_t)f].begin(), s.F[(size_t)f].end());
    }
    std::vector<int> src, tgt;
    for (int i = 0; i < n; i++) (fresh[(size_t)i] ? tgt : src).push_back(i);
    r.targets = (int)tgt.size();

    // Descriptors: mean and deviation of the signatures of a patch, each relative to its largest entry
    std::vector<EigenVector> desc((size_t)n);
    for (int i = 0; i < n; i++) {
        EigenVector m = EigenVector::Zero(hks.cols()), q = m;
        for (int v : verts[(size_t)i]) m += sigs[(size_t)v];
        m /= (double)verts[(size_t)i].size();
        for (int v : verts[(size_t)i]) q += (sigs[(size_t)v] - m).cwiseAbs2();
        q = (q / (double)verts[(size_t)i].size()).cwiseSqrt();
        desc[(size_t)i].resize(2 * m.size());
        desc[(size_t)i] << m / m.maxCoeff(), q / q.maxCoeff();
    }
    const size_t many = std::max<size_t>(10, (size_t)(0.001 * (double)src.size()));
    if (many + 1 > src.size()) throw NotClear();

    struct Fit {
        double err = 1e300;
        int from = -1;
        Eigen::Matrix3d R;
        Eigen::Vector3d t;
    };
    auto ev = [](const V3 &p) { return Eigen::Vector3d(p.x, p.y, p.z); };
    auto vv = [](const Eigen::Vector3d &p) { return V3(p(0), p(1), p(2)); };
    std::vector<Fit> fit;
    for (int t : tgt) {
        std::vector<std::pair<double, int>> d;
        for (int v : src) d.emplace_back((desc[(size_t)t] - desc[(size_t)v]).squaredNorm(), v);
        std::sort(d.begin(), d.end());
        if (d[many].first - d[many - 1].first < 1e-9 * d[many].first) throw NotClear();
        Fit best;
        double second = 1e300;
        for (size_t c = 0; c < many; c++) {
            const int from = d[c].second;
            const auto &vs = verts[(size_t)from];
            EigenMatrix X(vs.size(), 3), Y(vs.size(), 3);
            long at = 0;
            for (int v : vs) {
                double least = 1e300;
                int mate = -1;
                for (int u : verts[(size_t)t]) {
                    const double x = (sigs[(size_t)v] - sigs[(size_t)u]).squaredNorm();
                    if (x < least) least = x, mate = u;
                }
                X.row(at) = ev(s.P[(size_t)v]).transpose();
                Y.row(at++) = ev(s.P[(size_t)mate]).transpose();
            }
            const Eigen::RowVector3d mx = X.colwise().mean(), my = Y.colwise().mean();
            X.rowwise() -= mx;
            Y.rowwise() -= my;
            const Eigen::JacobiSVD<Eigen::Matrix3d> svd(Eigen::Matrix3d(Y.transpose() * X), Eigen::ComputeFullU | Eigen::ComputeFullV);
            const double det = (svd.matrixU() * svd.matrixV().transpose()).determinant() < 0 ? -1 : 1;
            const Eigen::Vector3d sv = svd.singularValues();
            Fit f;
            f.R = svd.matrixU() * Eigen::Vector3d(1, 1, det).asDiagonal() * svd.matrixV().transpose();
            f.t = my.transpose() - f.R * mx.transpose();
            f.err = (Y - X * f.R.transpose()).squaredNorm() / (double)vs.size();
            f.from = from;
            const bool loose = sv(1) + det * sv(2) < 1e-6 * sv(0);
            if (f.err < best.err) {
                second = best.err;
                best = f;
                if (loose) best.from = -1;
            } else {
                second = std::min(second, f.err);
            }
        }
        if (best.from < 0 || second - best.err < 1e-9 * len * len) throw NotClear();
        fit.push_back(best);
    }

    // How badly the feature lines of the pairs agree
    std::vector<double> bad;
    std::map<int, std::vector<size_t>> over;  // vertex -> pairs whose patch has it
    const EigenMatrix &field = std::get<0>(lines);
    const EigenVector &flags = std::get<1>(lines);
    for (size_t i = 0; i < tgt.size(); i++) {
        double sum = 0, weights = 0;
        for (int v : verts[(size_t)tgt[i]]) {
            over[v].push_back(i);
            double least = 1e300, next = 1e300;
            int mate = -1;
            for (int u : verts[(size_t)fit[i].from]) {
                const double x = norm(s.P[(size_t)v] - vv(fit[i].R * ev(s.P[(size_t)u]) + fit[i].t));
                if (x < least) next = least, least = x, mate = u;
                else next = std::min(next, x);
            }
            if (next - least < 1e-9 * len) throw NotClear();
            const Eigen::Vector3d a = field.row(row[(size_t)v]).transpose(), b = field.row(row[(size_t)mate]).transpose();
            const double x = flags(row[(size_t)mate]) != 0 ? (double)verts[(size_t)tgt[i]].size() : 1;
            sum += x * (a - fit[i].R * b).squaredNorm();
            weights += x;
        }
        bad.push_back(sum / weights);
    }

    // Where the pairs put the vertices, and the offsets at the rim carried on inside
    std::vector<V3> to((size_t)n);
    for (const auto &o : over) {
        V3 p;
        double weights = 0;
        for (size_t i : o.second) {
            V3 near;
            double least = 1e300;
            for (int f : faces[(size_t)fit[i].from]) {
                V3 x[3];
                for (int e = 0; e < 3; e++) x[e] = vv(fit[i].R * ev(s.P[(size_t)s.F[(size_t)f][(size_t)e]]) + fit[i].t);
                const V3 y = closestOn(s.P[(size_t)o.first], x[0], x[1], x[2]);
                if (norm(y - s.P[(size_t)o.first]) < least) least = norm(y - s.P[(size_t)o.first]), near = y;
            }
            const double x = 1 / (std::pow(bad[i], 5.0) + 1e-12);
            p = p + near * x;
            weights += x;
        }
        to[(size_t)o.first] = p / weights;
    }
    std::map<int, int> index;
    for (size_t i = 0; i < tgt.size(); i++) index[tgt[i]] = (int)i;
    EigenMatrix L = EigenMatrix::Zero((long)tgt.size(), (long)tgt.size()), rhs = EigenMatrix::Zero((long)tgt.size(), 3);
    for (size_t i = 0; i < tgt.size(); i++) {
        for (int j : ad.nb[(size_t)tgt[i]]) {
            const double x = (double)cotWeight(s, ad, tgt[i], j);
            L((long)i, (long)i) += x;
            if (fresh[(size_t)j]) L((long)i, index.at(j)) -= x;
            else rhs.row((long)i) += x * ev(s.P[(size_t)j] - to[(size_t)j]).transpose();
        }
    }
    const Eigen::FullPivLU<EigenMatrix> lu(L);
    if (lu.rcond() < 1e-7) throw NotClear();
    const EigenMatrix off = lu.solve(rhs);
    r.P = s.P;
    for (size_t i = 0; i < tgt.size(); i++) {
        V3 &p = r.P[(size_t)tgt[i]];
        p = p + (to[(size_t)tgt[i]] + vv(off.row((long)i).transpose()) - p) / 10.0;
    }

    // Does anything call for a repair?
    Surf after = s;
    after.P = r.P;
    double area = 0;
    for (const Tri &f : s.F) area += norm(cross(s.P[(size_t)f[1]] - s.P[(size_t)f[0]], s.P[(size_t)f[2]] - s.P[(size_t)f[0]])) / 2;
    area /= (double)s.F.size();
    r.calm = r.unsplit = r.open = true;
    r.split = false;
    for (int t : tgt) {
        for (int j : ad.nb[(size_t)t]) {
            const double l = norm(r.P[(size_t)t] - r.P[(size_t)j]);
            if (l > 1.5 * len * (1 + 1e-4)) r.split = true;
            if (l > 1.5 * len * (1 - 1e-4)) r.calm = r.unsplit = false;
            const V3 x = r.P[(size_t)other(s.F[(size_t)ad.face.at(Edge(t, j))], t, j)], y = r.P[(size_t)other(s.F[(size_t)ad.face.at(Edge(j, t))], t, j)];
            const double al = angleAt(x, r.P[(size_t)t], r.P[(size_t)j]), ar = angleAt(y, r.P[(size_t)t], r.P[(size_t)j]);
            if (std::min(al, ar) < M_PI / 9) r.open = false;
            if (l > 1.4 * len) {
                const V3 mid = (r.P[(size_t)t] + r.P[(size_t)j]) / 2;
                for (const V3 &z : { x, y })
                    if (std::min(angleAt(z, mid, r.P[(size_t)t]), angleAt(z, mid, r.P[(size_t)j])) < M_PI / 9) r.open = false;
            }
            if (al + ar > M_PI - 1e-4 || std::min(al, ar) < M_PI / 10 + 1e-4) r.calm = false;
        }
        for (auto &fk : ad.tri[(size_t)t]) {
            const Tri &f = s.F[(size_t)fk.first];
            if (norm(cross(r.P[(size_t)f[1]] - r.P[(size_t)f[0]], r.P[(size_t)f[2]] - r.P[(size_t)f[0]])) / 2 < 0.0101 * area) r.calm = false;
        }
    }
    return r;
}

static void oneIteration(Case &c) {
    Surf s = baseSurface(c, false);
    if (c.g.chance(0.35)) {
        // New edges come out longer than most, and call for repairs
        const int axis = c.g.pick(3);
        const double k = c.g.real(1.3, 2.5);
        for (V3 &p : s.P) p = V3(p.x * (axis == 0 ? k : 1), p.y * (axis == 1 ? k : 1), p.z * (axis == 2 ? k : 1));
        c.describe(", stretched by %.2f", k);
    }
    const int holes = c.g.chance(0.7) ? 1 : 2;
    for (int h = 0; h < holes; h++) cutRound(c, s);
    if (s.P.size() <= 301) throw Discard();
    const V3 shift = c.g.chance(0.5) ? V3(c.g.real(-3, 3), c.g.real(-3, 3), c.g.real(-3, 3)) : V3(0, 0, 0);
    for (V3 &p : s.P) p = p + shift;
    permute(c.g, s);
    tm::Mesh m = toMesh(s), filled = toMesh(s);
    const View before = viewOf(m);
    const auto em = edgeMap(before.s);
    for (const auto &h : before.holes)
        if (h.size() > 40 || hasChord(h, em)) throw Discard();
    tm::holeFillContextCoherent(filled, 0);
    const View v = viewOf(filled);
    if (!v.holes.empty() || v.s.P.size() == before.s.P.size()) throw Discard();
    tm::holeFillContextCoherent(m, 1);
    const View got = viewOf(m);
    std::vector<char> fresh(v.s.P.size(), 0);
    for (size_t i = before.s.P.size(); i < v.s.P.size(); i++) fresh[i] = 1;
    Followed f;
    try {
        f = follow(v.s, fresh);
    } catch (NotClear &) {
        c.label("one iteration, not clear");
        throw Discard();
    }
    c.describe("; one iteration, %d new vertices, patches of %d rings", f.targets, f.radius);
    const bool same = got.s.F == v.s.F && got.s.P.size() == v.s.P.size();
    if (f.calm) c.require(same, "nothing calls for a repair after one iteration, but the triangles changed");
    if (f.split) c.require(!same, "a new edge is much too long after one iteration, but was not split");
    if (f.split && f.open) {
        c.require(got.s.P.size() > v.s.P.size(), "a new edge is much too long after one iteration, but no vertex was inserted");
        c.label("one iteration, split");
    }
    if (f.split || !f.unsplit || got.s.P.size() != v.s.P.size()) {
        c.label("one iteration, repaired");
        return;
    }
    // Flips at most: the positions are those of the iteration
    const double size = before.s.diameter() + norm(shift);
    for (size_t i = 0; i < got.s.P.size(); i++) {
        const double d = norm(got.s.P[i] - f.P[i]);
        c.require(d <= 1e-6 * size, "%s vertex %zu is %.3g away from where one iteration puts it (size %.3g, moved by %.3g)", fresh[i] ? "new" : "existing", i, d, size,
                  norm(v.s.P[i] - f.P[i]));
    }
    c.label("one iteration compared");
    c.nontrivial = true;
}

static void every(Case &c) {
    if (c.g.chance(0.55)) oneIteration(c);
    else prop(c);
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P08";
    cfg.rule = "surfaces of 300 to 650 vertices with up to three round holes; one iteration is followed in a model where "
               "every choice is clear; non-trivial if vertices were added and at least one iteration ran";
    cfg.prop = every;
    cfg.quickCases = 160;
    cfg.thoroughCases = 2000;
    cfg.isolate = true;
    cfg.caseTimeout = 120;
    return pbt::run(cfg, argc, argv);
}
