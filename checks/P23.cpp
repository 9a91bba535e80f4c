// P23: vector algebra and geometric primitives obey their definitions.
#include <sstream>

#include "core/utils.h"
#include "bridge.h"
#include "geom.h"
using namespace ref;

template <typename F>
static F component(Gen &g, int style) {
    if (style == 0) return (F)g.integer(-4, 4);
    if (style == 1) return (F)g.real(-10, 10);
    const double m = g.logReal(1e-6, 1e6);
    return (F)(g.chance(0.5) ? m : -m);
}
template <typename F, int D>
static Vec<F, D> make(const F *e) {
    if (D == 2) return Vec<F, D>(e[0], e[1]);
    if (D == 3) return Vec<F, D>(e[0], e[1], e[2]);
    return Vec<F, D>(e[0], e[1], e[2], e[3]);
}
template <typename F, int D>
static void same(Case &c, const Vec<F, D> &v, const F *e, const char *what) {
    for (int i = 0; i < D; i++) {
        c.require(v[i] == e[i] || (v[i] != v[i] && e[i] != e[i]), "%s: component %d of %d is %.9g instead of %.9g", what, i, D, (double)v[i], (double)e[i]);
    }
}
// Within a few units in the last place
template <typename F, int D>
static void nearly(Case &c, const Vec<F, D> &v, const F *e, const char *what) {
    const double eps = 4 * (double)std::numeric_limits<F>::epsilon();
    for (int i = 0; i < D; i++) {
        c.require(std::fabs((double)v[i] - (double)e[i]) <= eps * std::fabs((double)e[i]), "%s: component %d of %d is %.9g instead of %.9g", what, i, D, (double)v[i], (double)e[i]);
    }
}

template <typename F, int D>
static void algebra(Case &c) {
    typedef Vec<F, D> V;
    Gen &g = c.g;
    const int style = g.pick(3);
    F a[4], b[4], r[4];
    for (int i = 0; i < D; i++) a[i] = component<F>(g, style);
    for (int i = 0; i < D; i++) b[i] = component<F>(g, style);
    if (g.chance(0.1)) std::copy(a, a + D, b);
    F s = component<F>(g, style);
    c.label(pbt::fmt("%s %d", sizeof(F) == 4 ? "float" : "double", D));
    const V va = make<F, D>(a), vb = make<F, D>(b);
    same<F, D>(c, va, a, "constructor");
    F zero[4] = { 0, 0, 0, 0 }, fill[4] = { s, s, s, s };
    same<F, D>(c, V(), zero, "default constructor");
    same<F, D>(c, V(s), fill, "filling constructor");
    {
        // A vector given by two components has zeros elsewhere
        const V two(a[0], a[1]);
        F e[4] = { a[0], a[1], 0, 0 };
        same<F, D>(c, two, e, "two-component constructor");
    }
    {
        V copy(va), assigned;
        same<F, D>(c, copy, a, "copy");
        assigned = vb;
        assigned = va;
        same<F, D>(c, assigned, a, "assignment");
        copy[0] = copy[0] + (F)1;
        same<F, D>(c, va, a, "original after its copy changed");
        const Eigen::Matrix<F, D, 1> ev = va;
        for (int i = 0; i < D; i++) c.require(ev(i) == a[i], "conversion to Eigen");
        V back(ev);
        same<F, D>(c, back, a, "conversion from Eigen");
        V back2;
        back2 = ev;
        same<F, D>(c, back2, a, "assignment from Eigen");
        c.require(va.x() == a[0] && va.y() == a[1], "x/y accessors");
    }
    auto apply = [&](const char *what, const V &got, auto fn) {
        for (int i = 0; i < D; i++) r[i] = fn(a[i], b[i]);
        nearly<F, D>(c, got, r, what);
        same<F, D>(c, va, a, "left operand");
        same<F, D>(c, vb, b, "right operand");
    };
    apply("a + b", va + vb, [](F x, F y) { return (F)(x + y); });
    apply("a - b", va - vb, [](F x, F y) { return (F)(x - y); });
    apply("a * b", va * vb, [](F x, F y) { return (F)(x * y); });
    apply("a * s", va * s, [&](F x, F) { return (F)(x * s); });
    apply("s * a", s * va, [&](F x, F) { return (F)(x * s); });
    apply("a - s", va - s, [&](F x, F) { return (F)(x - s); });
    apply("s - a", s - va, [&](F x, F) { return (F)(s - x); });
    apply("-a", -va, [](F x, F) { return (F)-x; });
    apply("abs", std::abs(va), [](F x, F) { return (F)std::fabs(x); });
    apply("min", std::min(va, vb), [](F x, F y) { return x < y ? x : y; });
    apply("max", std::max(va, vb), [](F x, F y) { return x < y ? y : x; });
    bool anyZero = false;
    for (int i = 0; i < D; i++) anyZero = anyZero || b[i] == 0;
    bool threw = false;
    try {
        const V q = va / vb;
        if (!anyZero) apply("a / b", q, [](F x, F y) { return (F)(x / y); });
    } catch (const std::exception &) {
        threw = true;
    }
    c.require(threw == anyZero, "division by a vector %s a zero component %s", anyZero ? "with" : "without", threw ? "failed" : "went through");
    threw = false;
    try {
        const V q = va / s;
        if (s != 0) apply("a / s", q, [&](F x, F) { return (F)(x / s); });
    } catch (const std::exception &) {
        threw = true;
    }
    c.require(threw == (s == 0), "division by scalar %.9g %s", (double)s, threw ? "failed" : "went through");
    // Compound forms, also with itself as operand
    {
        V x(va);
        V &ref = (x += vb);
        c.require(&ref == &x, "+= does not return its object");
        apply("+=", x, [](F p, F q) { return (F)(p + q); });
        V y(va);
        V &ref2 = (y -= vb);
        c.require(&ref2 == &y, "-= does not return its object");
        apply("-=", y, [](F p, F q) { return (F)(p - q); });
        V z(va);
        z *= vb;
        apply("*=", z, [](F p, F q) { return (F)(p * q); });
        V w(va);
        w *= s;
        apply("*= s", w, [&](F p, F) { return (F)(p * s); });
        V u(va);
        u += u;
        apply("u += u", u, [](F p, F) { return (F)(p + p); });
        V t(va);
        t -= t;
        apply("t -= t", t, [](F, F) { return (F)0; });
        V m(va);
        m *= m;
        apply("m *= m", m, [](F p, F) { return (F)(p * p); });
        if (!anyZero) {
            V d(va);
            d /= vb;
            apply("/=", d, [](F p, F q) { return (F)(p / q); });
        }
    }
    bool eq = true;
    for (int i = 0; i < D; i++) eq = eq && a[i] == b[i];
    c.require((va == vb) == eq && (va != vb) == !eq, "comparison");
    {
        const int k = g.pick(D);
        V x(va);
        c.require(x == va && !(x != va), "a copy is not equal to its original");
        c.require(std::hash<V>()(x) == std::hash<V>()(va), "equal vectors have different hashes");
        x[k] = std::nextafter(a[k], (F)1e9);
        c.require(!(x == va) && x != va, "vectors that differ in component %d of %d are equal", k, D);
        V p(va), n(va);
        p[k] = (F)0.0;
        n[k] = (F)-0.0;
        c.require(p == n && std::hash<V>()(p) == std::hash<V>()(n), "zero and negative zero");
    }
    // Dot, length, normalise
    LD dt = 0, mag = 0, aa = 0;
    for (int i = 0; i < D; i++) {
        dt += (LD)a[i] * b[i];
        mag += fabsl((LD)a[i] * b[i]);
        aa += (LD)a[i] * a[i];
    }
    const double eps = std::numeric_limits<F>::epsilon();
    c.require(std::fabs((double)(dot(va, vb) - dt)) <= 8 * eps * (double)mag, "dot product %.9g instead of %.9g", (double)dot(va, vb), (double)dt);
    const double len = (double)sqrtl(aa);
    c.require(std::fabs((double)length(va) - len) <= 8 * eps * len, "length %.9g instead of %.9g", (double)length(va), len);
    if (len > 0) {
        const V n = normalize(va);
        for (int i = 0; i < D; i++) {
            c.require(std::fabs((double)n[i] - (double)a[i] / len) <= 16 * eps, "normalised component %d is %.9g instead of %.9g", i, (double)n[i], (double)a[i] / len);
        }
        c.nontrivial = true;
    }
    {
        std::ostringstream os;
        os.precision(17);
        os << va;
        std::string t = os.str();
        for (char &ch : t) {
            if (!strchr("0123456789+-.e", ch)) ch = ' ';
        }
        std::istringstream is(t);
        double x;
        for (int i = 0; i < D; i++) {
            is >> x;
            c.require((bool)is && std::fabs(x - (double)a[i]) <= 1e-15 * std::fabs((double)a[i]), "text form '%s' lacks component %d", os.str().c_str(), i);
        }
    }
}

template <typename F>
static void crossProduct(Case &c) {
    Gen &g = c.g;
    const int style = g.pick(3);
    F a[3], b[3];
    for (F &x : a) x = component<F>(g, style);
    for (F &x : b) x = component<F>(g, style);
    const Vec<F, 3> va(a[0], a[1], a[2]), vb(b[0], b[1], b[2]);
    const auto r = cross(va, vb);
    const double eps = 8 * (double)std::numeric_limits<F>::epsilon();
    for (int i = 0; i < 3; i++) {
        const int j = (i + 1) % 3, k = (i + 2) % 3;
        const LD p = (LD)a[j] * b[k], q = (LD)a[k] * b[j];
        c.require(std::fabs((double)(r[i] - (p - q))) <= eps * (double)(fabsl(p) + fabsl(q)), "cross product component %d is %.9g instead of %.9g", i,
                  (double)r[i], (double)(p - q));
    }
    c.require(va.z() == a[2], "z accessor");
    const Vec<F, 4> v4(a[0], a[1], a[2], b[0]);
    c.require(v4.z() == a[2] && v4.w() == b[0], "z and w accessors of a four-component vector");
    c.nontrivial = true;
    c.label("cross");
}

static V3 pt(Gen &g, bool lattice) {
    if (lattice) return V3((double)g.integer(-3, 3), (double)g.integer(-3, 3), (double)g.integer(-3, 3));
    return V3(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1));
}

static void angles(Case &c) {
    Gen &g = c.g;
    const bool lattice = g.chance(0.4);
    const double scale = g.chance(0.4) ? g.logReal(1e-3, 1e3) : 1.0;
    V3 p[4];
    for (V3 &q : p) q = pt(g, lattice) * scale;
    const L3 A(p[0]), B(p[1]), C(p[2]), Dp(p[3]);
    const double S = scale;
    c.describe("points %s %s %s %s", show(p[0]).c_str(), show(p[1]).c_str(), show(p[2]).c_str(), show(p[3]).c_str());
    const LD la = norm(A - B), lc = norm(C - B);
    if (la < 1e-2 * S || lc < 1e-2 * S) throw Discard();
    const LD want = atan2l(norm(cross(A - B, C - B)), dot(A - B, C - B));
    const double an = angle(tv(p[0]), tv(p[1]), tv(p[2]));
    c.require(std::fabs((double)(an - want)) <= 1e-11, "angle %.17g instead of %.17g", an, (double)want);
    if (sinl(want) > 1e-4L) {
        const LD wc = cosl(want) / sinl(want);
        const double ct = cot(tv(p[0]), tv(p[1]), tv(p[2]));
        c.require(std::fabs((double)(ct - wc)) <= 1e-9 * (double)(1 + fabsl(wc) * fabsl(wc)), "cotangent %.17g instead of %.17g", ct, (double)wc);
        c.nontrivial = true;
        c.label("angle");
    }
    {
        LD l[3] = { dot(B - A, B - A), dot(C - B, C - B), dot(A - C, A - C) };
        std::sort(l, l + 3);
        if (fabsl(l[0] + l[1] - l[2]) > 1e-9L * l[2]) {
            const bool ob = l[0] + l[1] < l[2];
            c.require(obtuse(tv(p[0]), tv(p[1]), tv(p[2])) == ob, "a triangle is%s reported obtuse", ob ? " not" : "");
            c.label(ob ? "obtuse" : "acute");
        }
    }
    // Dihedral angle along the edge p1-p2 between the sides of p0 and p3
    const L3 e = C - B;
    const LD ee = dot(e, e);
    const L3 f0 = (A - B) - e * (dot(A - B, e) / ee), f3 = (Dp - B) - e * (dot(Dp - B, e) / ee);
    if (norm(f0) > 1e-2L * S && norm(f3) > 1e-2L * S) {
        const LD dw = atan2l(norm(cross(f0, f3)), dot(f0, f3));
        const double dh = dihedral(tv(p[0]), tv(p[1]), tv(p[2]), tv(p[3]));
        c.require(std::fabs((double)(dh - dw)) <= 1e-6, "dihedral angle %.17g instead of %.17g", dh, (double)dw);
        const double dr = dihedral(tv(p[3]), tv(p[2]), tv(p[1]), tv(p[0]));
        c.require(std::fabs(dr - dh) <= 1e-6, "dihedral angle depends on the side it is looked at from: %.17g, %.17g", dh, dr);
        c.label("dihedral");
        if (dw < 1e-6L || dw > 3.14159L) c.label("flat or folded dihedral");
    }
    // A triangle with coinciding corners has no plane, so no angle
    if (dot(p[2] - p[1], p[2] - p[1]) > 0) {
        const int end = 1 + (int)c.g.pick(2);
        const double d0 = dihedral(tv(p[end]), tv(p[1]), tv(p[2]), tv(p[3])), d3 = dihedral(tv(p[0]), tv(p[1]), tv(p[2]), tv(p[end]));
        c.require(d0 == 0 && d3 == 0, "dihedral angle %.17g at a triangle with coinciding corners", d0 != 0 ? d0 : d3);
    }
}

static V3 mul(const EigenMatrix3 &R, const V3 &v) {
    return V3(R(0, 0) * v.x + R(0, 1) * v.y + R(0, 2) * v.z, R(1, 0) * v.x + R(1, 1) * v.y + R(1, 2) * v.z,
              R(2, 0) * v.x + R(2, 1) * v.y + R(2, 2) * v.z);
}
static void proper(Case &c, const EigenMatrix3 &R, const char *what) {
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            double s = 0;
            for (int k = 0; k < 3; k++) s += R(k, i) * R(k, j);
            c.require(std::fabs(s - (i == j)) < 1e-7, "%s is not orthogonal", what);
        }
    }
    const double det = R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) +
                       R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0));
    c.require(std::fabs(det - 1) < 1e-7, "%s has determinant %.9g", what, det);
}

static void rotations(Case &c) {
    Gen &g = c.g;
    V3 a;
    if (g.chance(0.4)) {
        a = V3((double)g.integer(-2, 2), (double)g.integer(-2, 2), (double)g.integer(-2, 2));
        if (norm(a) == 0) a = V3(0, 0, 1);
    } else {
        a = randomDirection(g);
    }
    const V3 ax = unit(a);
    const double t = g.real(-7, 7);
    const EigenMatrix3 R = rotationAxisAngle(t, tv(ax));
    proper(c, R, "axis rotation");
    const V3 v = randomDirection(g);
    const V3 along = ax * dot(ax, v), perp = v - along;
    const V3 want = along + perp * std::cos(t) + cross(ax, perp) * std::sin(t);
    c.require(norm(mul(R, v) - want) < 1e-12, "axis rotation maps a vector wrongly");
    const V3 viaVec = rv(R * tv(v));
    c.require(norm(viaVec - want) < 1e-12, "matrix times vector is wrong");

    // Between two vectors of any length: general, nearly equal, equal, opposite
    V3 b;
    const int kind = g.weighted({ 4, 1, 1, 1, 1 });
    if (kind == 0) b = randomDirection(g);
    else if (kind == 1) b = a;
    else if (kind == 2) b = -a;
    else if (kind == 3) b = unit(a) + randomDirection(g) * g.logReal(1e-9, 1e-2);
    else b = -unit(a) + randomDirection(g) * g.logReal(1e-9, 1e-2);
    const double la = g.logReal(0.1, 10), lb = g.logReal(0.1, 10);
    if (g.chance(0.7)) a = unit(a) * la;
    if (g.chance(0.7)) b = unit(b) * lb;
    static const char *names[] = { "rotation general", "rotation same", "rotation opposite", "rotation nearly same", "rotation nearly opposite" };
    c.label(names[kind]);
    c.describe("rotate %s to %s", show(a).c_str(), show(b).c_str());
    const EigenMatrix3 Q = rotationFromTwoVectors(tv(a), tv(b));
    proper(c, Q, "rotation between two vectors");
    const double err = norm(mul(Q, unit(a)) - unit(b));
    c.require(err < 1e-6, "the first vector is mapped %.3g off the second", err);
    const double ang = std::atan2(norm(cross(a, b)), dot(a, b));
    const double tr = Q(0, 0) + Q(1, 1) + Q(2, 2);
    c.require(std::fabs(tr - (1 + 2 * std::cos(ang))) < 1e-6, "the rotation between two vectors turns by more than the angle between them");
    if (norm(cross(unit(a), unit(b))) > 1e-3) {
        // ... about their common perpendicular
        const V3 n = unit(cross(a, b));
        c.require(norm(mul(Q, n) - n) < 1e-9, "the rotation between two vectors moves their common perpendicular");
    }
    c.nontrivial = true;
}

static void prop(Case &c) {
    switch (c.g.weighted({ 1, 1, 1, 1, 1, 1, 1, 4, 3 })) {
        case 0: return algebra<double, 3>(c);
        case 1: return algebra<double, 2>(c);
        case 2: return algebra<double, 4>(c);
        case 3: return algebra<float, 2>(c);
        case 4: return algebra<float, 3>(c);
        case 5: return algebra<float, 4>(c);
        case 6: return c.g.chance(0.5) ? crossProduct<double>(c) : crossProduct<float>(c);
        case 7: return angles(c);
        default: return rotations(c);
    }
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.id = "P23";
    cfg.rule = "random vectors (integers, reals, wide magnitudes) of two to four float or double components through every operator; random and "
               "lattice points through the angle functions; axes and vector pairs through the rotations; non-trivial: non-zero operands";
    cfg.prop = prop;
    cfg.quickCases = 4000000;
    cfg.thoroughCases = 60000000;
    cfg.assumptions = { "components between 1e-6 and 1e6 in magnitude or zero" };
    return pbt::run(cfg, argc, argv);
}
